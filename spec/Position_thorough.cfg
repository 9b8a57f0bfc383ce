CONSTANTS
 Kinds = {"mft", "index", "list"}
 Rus = {1, 2, 4, 8}
 MaxRuns = 4
 Records = 6
 Nodes = 4
 ListClusters = 3
INIT Init
NEXT Next
INVARIANT Exact
INVARIANT Apart
INVARIANT Emit
CHECK_DEADLOCK FALSE
