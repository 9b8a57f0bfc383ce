----------------------------- MODULE IndexGraph -----------------------------
(***************************************************************************)
(* Indexes whose nodes refer to anything (C14): to themselves, to each     *)
(* other in circles, to one node twice, to nothing.                        *)
(*                                                                         *)
(* Every assignment of subnodes to the entries of a few nodes is a state.  *)
(* Iteration and search of Index run on it with the memory of subnodes     *)
(* they have visited.  Both must come to an end or to an error, with each  *)
(* node read at most once and each key delivered at most once; and where   *)
(* what is reachable from the root is a tree, nothing may fail and the     *)
(* order is the tree's.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,         \* nodes besides the root; N+1 stands for a node that is not there
          MaxKeys    \* keys in a node besides its terminator

VARIABLES nodes,     \* 1 is the root; a node is a sequence of the subnodes of its entries, 0 for none; the last entry is the terminator
          phase, st, follow, visited, out, bad, steps
vars == <<nodes, phase, st, follow, visited, out, bad, steps>>

Subs == 0..(N + 1)
Node == UNION { [1..k -> Subs] : k \in 1..(MaxKeys + 1) }
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* subnode number s is node s+1
Exists(s) == s \in 1..N
Key(n, i) == IF i = Len(nodes[n]) THEN 0 ELSE 10 * n + i

Init == nodes = << >> /\ phase = "build" /\ st = << >> /\ follow = << >> /\ visited = {} /\ out = << >> /\ bad = 0 /\ steps = 0
Build == /\ phase = "build" /\ Len(nodes) < N + 1
         /\ \E x \in Node : nodes' = Append(nodes, x)
         /\ phase' = IF Len(nodes) = N THEN "made" ELSE "build"
         /\ UNCHANGED <<st, follow, visited, out, bad, steps>>
Start == /\ phase = "made" /\ phase' = "iter" /\ st' = << <<1, 1>> >> /\ UNCHANGED <<nodes, follow, visited, out, bad, steps>>
Top == Last(st)
Adv == [st EXCEPT ![Len(st)] = <<@[1], @[2] + 1>>]
Step ==
  /\ phase = "iter" /\ steps' = steps + 1 /\ UNCHANGED nodes
  /\ IF st = << >> THEN phase' = "over" /\ UNCHANGED <<st, follow, visited, out, bad>>
     ELSE LET n == Top[1]  i == Top[2] IN
     IF i <= Len(nodes[n]) THEN
       LET s == nodes[n][i] IN
       IF s = 0 THEN /\ st' = Adv /\ out' = IF Key(n, i) # 0 THEN Append(out, Key(n, i)) ELSE out
                     /\ UNCHANGED <<phase, follow, visited, bad>>
       ELSE IF s \in visited \/ ~Exists(s) THEN
            \* the error is delivered; iteration can go on behind the entry
            st' = Adv /\ bad' = bad + 1 /\ UNCHANGED <<phase, follow, visited, out>>
       ELSE /\ st' = Append(Adv, <<s + 1, 1>>) /\ follow' = Append(follow, Key(n, i)) /\ visited' = visited \cup {s}
            /\ UNCHANGED <<phase, out, bad>>
     ELSE /\ st' = Front(st)
          /\ IF follow = << >> THEN UNCHANGED <<follow, out>>
             ELSE follow' = Front(follow) /\ out' = IF Last(follow) # 0 THEN Append(out, Last(follow)) ELSE out
          /\ UNCHANGED <<phase, visited, bad>>
Next == Build \/ Start \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Entries == (N + 1) * (MaxKeys + 1)
Once == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
Bounded == Once /\ Len(out) <= (N + 1) * MaxKeys /\ Cardinality(visited) <= N /\ steps <= Entries + 2 * (N + 1) + 1
Ends == <>(phase = "over")
(* Nothing fails exactly where what was reached is a tree: every node but the root has one entry referring to it, and none refers to nothing. *)
Seen == {1} \cup { s + 1 : s \in visited }
Refs == { x \in Seen \X (1..(MaxKeys + 1)) : x[2] <= Len(nodes[x[1]]) /\ nodes[x[1]][x[2]] # 0 }
Tree == Cardinality(Refs) = Cardinality(visited)
FailsOffTrees == phase = "over" => (bad = 0) = Tree
Emit == phase = "over" => PrintT(ToJson([nodes |-> nodes, out |-> out, bad |-> bad]))
=============================================================================
