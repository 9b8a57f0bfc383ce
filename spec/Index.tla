------------------------------- MODULE Index -------------------------------
(***************************************************************************)
(* Index trees: iteration in order (C09) and search (C10).                 *)
(*                                                                         *)
(* A node is a sequence of entries ending with a key-less terminator; any  *)
(* entry, the terminator included, may refer to a subnode, whose entries   *)
(* come before it.  Trees are built in their in-order sequence: open a     *)
(* node, add keys, close it with its terminator.  So keys are numbered     *)
(* 1, 2, 3, ... in order by construction, for every tree shape up to the   *)
(* bounds, balanced or not, with empty nodes anywhere.                     *)
(*                                                                         *)
(* Machines: iteration with a stack of node positions and a stack of       *)
(* entries that follow their subnode; search down the tree.                *)
(* Contracts: iteration yields 1, 2, ..., N and then stays at its end,     *)
(* reading every subnode exactly once; a search for key k finds k, one for *)
(* a value between two keys finds nothing, and both read at most one       *)
(* subnode per level.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxKeys, MaxNodes, MaxDepth

VARIABLES nodes,     \* sequence of nodes; a node is a sequence of [key, sub], key 0 for the terminator, sub 0 for none
          open,      \* nodes under construction, innermost last
          pend,      \* a subnode that was just closed and waits for its entry
          n,         \* number of keys
          phase,     \* "build", "iter", "find", "done"
          st,        \* stack of [node, i]
          follow,    \* stack of keys to yield after the subnode (0: none)
          out,       \* keys yielded
          read,      \* subnodes read by the operation at hand, in order
          ask        \* what is searched: 2k means key k, 2k+1 something between k and k+1
vars == <<nodes, open, pend, n, phase, st, follow, out, read, ask>>

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

Init == /\ nodes = << << >> >> /\ open = <<1>> /\ pend = 0 /\ n = 0 /\ phase = "build"
        /\ st = << >> /\ follow = << >> /\ out = << >> /\ read = << >> /\ ask = 0

Open == /\ phase = "build" /\ pend = 0 /\ Len(nodes) < MaxNodes /\ Len(open) < MaxDepth
        /\ nodes' = Append(nodes, << >>)
        /\ open' = Append(open, Len(nodes) + 1)
        /\ UNCHANGED <<pend, n, phase, st, follow, out, read, ask>>
Key == /\ phase = "build" /\ n < MaxKeys
       /\ n' = n + 1
       /\ nodes' = [nodes EXCEPT ![Last(open)] = Append(@, [key |-> n + 1, sub |-> pend])]
       /\ pend' = 0
       /\ UNCHANGED <<open, phase, st, follow, out, read, ask>>
Close == /\ phase = "build"
         /\ nodes' = [nodes EXCEPT ![Last(open)] = Append(@, [key |-> 0, sub |-> pend])]
         /\ open' = Front(open)
         /\ IF Len(open) = 1 THEN phase' = "idle" /\ pend' = 0 ELSE pend' = Last(open) /\ UNCHANGED phase
         /\ UNCHANGED <<n, st, follow, out, read, ask>>

(* ---- iteration --------------------------------------------------------------------------- *)
StartIter == /\ phase = "idle"
             /\ phase' = "iter" /\ st' = <<[node |-> 1, i |-> 1]>> /\ follow' = << >> /\ out' = << >> /\ read' = << >>
             /\ UNCHANGED <<nodes, open, pend, n, ask>>
Top == Last(st)
IterStep ==
  /\ phase = "iter"
  /\ IF st = << >> THEN phase' = "iterated" /\ UNCHANGED <<st, follow, out, read>>
     ELSE IF Top.i <= Len(nodes[Top.node]) THEN
       LET e == nodes[Top.node][Top.i]
           adv == [st EXCEPT ![Len(st)].i = @ + 1]
       IN /\ UNCHANGED phase
          /\ IF e.sub # 0 THEN /\ st' = Append(adv, [node |-> e.sub, i |-> 1])
                               /\ follow' = Append(follow, e.key)
                               /\ read' = Append(read, e.sub)
                               /\ UNCHANGED out
             ELSE /\ st' = adv
                  /\ out' = IF e.key # 0 THEN Append(out, e.key) ELSE out
                  /\ UNCHANGED <<follow, read>>
     ELSE /\ UNCHANGED <<phase, read>>
          /\ st' = Front(st)
          /\ IF follow = << >> THEN UNCHANGED <<follow, out>>
             ELSE /\ follow' = Front(follow)
                  /\ out' = IF Last(follow) # 0 THEN Append(out, Last(follow)) ELSE out
  /\ UNCHANGED <<nodes, open, pend, n, ask>>

(* ---- search ------------------------------------------------------------------------------- *)
StartFind == /\ phase = "iterated"
             /\ \E q \in 1..(2 * n + 1) : ask' = q
             /\ phase' = "find" /\ st' = <<[node |-> 1, i |-> 1]>> /\ out' = << >> /\ read' = << >>
             /\ UNCHANGED <<nodes, open, pend, n, follow>>
FindStep ==
  /\ phase = "find"
  /\ LET nd == nodes[Top.node] IN
     LET e == nd[Top.i] IN
     IF e.key # 0 /\ 2 * e.key < ask THEN st' = [st EXCEPT ![1].i = @ + 1] /\ UNCHANGED <<phase, out, read>>
     ELSE IF e.key # 0 /\ 2 * e.key = ask THEN out' = <<e.key>> /\ phase' = "found" /\ UNCHANGED <<st, read>>
     ELSE IF e.sub # 0 THEN st' = <<[node |-> e.sub, i |-> 1]>> /\ read' = Append(read, e.sub) /\ UNCHANGED <<phase, out>>
     ELSE phase' = "found" /\ UNCHANGED <<st, out, read>>
  /\ UNCHANGED <<nodes, open, pend, n, follow, ask>>
Next == Open \/ Key \/ Close \/ StartIter \/ IterStep \/ StartFind \/ FindStep
Spec == Init /\ [][Next]_vars

(* ---- contracts ------------------------------------------------------------------------------ *)
RECURSIVE Level(_)
Level(x) == IF x = 1 THEN 0 ELSE 1 + Level(CHOOSE p \in 1..Len(nodes) : \E i \in 1..Len(nodes[p]) : nodes[p][i].sub = x)
InOrder == out = [i \in 1..Len(out) |-> i] \/ phase \in {"find", "found"}
Whole == phase = "iterated" => /\ Len(out) = n
                               /\ Len(read) = Len(nodes) - 1
                               /\ \A i, j \in 1..Len(read) : i # j => read[i] # read[j]
Found == phase = "found" => out = IF ask % 2 = 0 THEN <<ask \div 2>> ELSE << >>
OneWay == phase \in {"find", "found"} => \A i \in 1..Len(read) : Level(read[i]) = i
Contract == InOrder /\ Whole /\ Found /\ OneWay

Emit == phase = "idle" => PrintT(ToJson([nodes |-> nodes, n |-> n, level |-> [x \in 1..Len(nodes) |-> Level(x)]]))
=============================================================================
