------------------------------ MODULE SafeModel ------------------------------
(***************************************************************************)
(* The greedy grouping as a step machine, and the verdicts of ok2move, on  *)
(* all placements of N spots on a grid. One step looks at one positioner:  *)
(* it enters the group unless a member's neighbour list has it or an       *)
(* earlier group does. Lists hold the K nearest neighbours (any choice at  *)
(* equal distance) closer than the limit.                                  *)
(* K too small must break GroupsApart.                                     *)
(***************************************************************************)
EXTENDS Safe, TLC, Json
CONSTANTS N, Side, K, Lim2, NGroups, Ordered
VARIABLES P, i, g, groups, blocked
Cells == (0..Side) \X (0..Side)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Placements == { p \in [1..N -> Cells] : (\A a, b \in 1..N : a # b => p[a] # p[b]) /\ (Ordered => \A a \in 1..(N - 1) : Less(p[a], p[a + 1])) }
Init == P \in Placements /\ i = 1 /\ g = 1 /\ groups = [n \in 1..NGroups |-> {}] /\ blocked = {}
\* the list of neighbours of p: first K by distance, ties by number
Before(p, a, b) == D2(P, p, a) < D2(P, p, b) \/ (D2(P, p, a) = D2(P, p, b) /\ a < b)
Lists(p) == { a \in 1..N : Close(P, p, a, Lim2) /\ Cardinality({ b \in 1..N \ {p} : Before(p, b, a) }) < K }
Step ==
  /\ g <= NGroups /\ i <= N
  /\ LET take == i \notin blocked /\ \A n \in 1..NGroups : i \notin groups[n] IN
     /\ groups' = IF take THEN [groups EXCEPT ![g] = @ \union {i}] ELSE groups
     /\ blocked' = IF take THEN blocked \union Lists(i) ELSE blocked
  /\ i' = i + 1 /\ UNCHANGED <<P, g>>
NextGroup == g <= NGroups /\ i > N /\ g' = g + 1 /\ i' = 1 /\ blocked' = {} /\ UNCHANGED <<P, groups>>
Next == Step \/ NextGroup
GroupsApart == \A n \in 1..NGroups : Apart(P, groups[n], Lim2)
OneGroup == \A n, m \in 1..NGroups : n # m => groups[n] \intersect groups[m] = {}
LeftOutForCause == g > NGroups => \A p \in 1..N : (\A n \in 1..NGroups : p \notin groups[n]) => \A n \in 1..NGroups : \E q \in groups[n] : Close(P, p, q, Lim2)
\* laws of the verdicts
Right == [s |-> 0, a |-> 0, b |-> 1]
Wide == [s |-> -1, a |-> 1, b |-> 4]
FarIsOk == \A p \in 1..N : (\A q \in 1..N : ~Close(P, p, q, Lim2)) => Ok(P, p, Lim2, Right)
WiderLimit == \A p \in 1..N : Ok(P, p, Lim2, Right) => Ok(P, p, Lim2, Wide)
\* of the outermost spots of the placement (no half plane empty otherwise) all may move
CornersOk == \A p \in 1..N : (\A q \in 1..N : q # p => P[q][1] > P[p][1]) => 
                 \A s \in NearPairs(P, p, 0) : \A j, k \in s : j # k => Opening(P, p, j, k, [s |-> -1, a |-> 1, b |-> 1]) = -1
Emit == (g = 1 /\ i = 1) => PrintT("@@CASE " \o ToJson(P))
=============================================================================
