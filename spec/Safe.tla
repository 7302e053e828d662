--------------------------------- MODULE Safe ---------------------------------
(***************************************************************************)
(* Which positioners may move (bin/ok2move) and which may move together    *)
(* (bin/select_groups_of_positioners), on integer coordinates: a spot is   *)
(* <<x, y>>, limits of distance are given squared.                         *)
(* An angle limit is [s, a, b]: s the sign of its cosine and a/b the       *)
(* square of its cosine (90 degrees: [0, 0, 1], 120: [-1, 1, 4]).          *)
(* Verdicts at a limit itself (sums rounded) are left open, as is the      *)
(* choice between neighbours at equal distance.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
D2(P, i, j) == LET dx == P[i][1] - P[j][1] dy == P[i][2] - P[j][2] IN dx * dx + dy * dy
Dot(P, i, j, k) == (P[j][1] - P[i][1]) * (P[k][1] - P[i][1]) + (P[j][2] - P[i][2]) * (P[k][2] - P[i][2])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x = 0 THEN 0 ELSE -1
\* angle at i between j and k against the limit: 1 wider, 0 equal, -1 narrower
Opening(P, i, j, k, L) ==
  LET d == Dot(P, i, j, k) s == Sgn(d)
  IN IF s # L.s THEN Sgn(L.s - s)
     ELSE IF s = 0 THEN 0
     ELSE LET c == Sgn(d * d * L.b - L.a * D2(P, i, j) * D2(P, i, k)) IN   \* against |cos|
          IF s > 0 THEN -c ELSE c
\* right angles only, for larger coordinates
OpeningRight(P, i, j, k) == -Sgn(Dot(P, i, j, k))
\* the two nearest neighbours: any pair such that no other one is nearer
\* (far: distances from one another that are equal up to slack)
Pairs(P, N, i, slack) ==
  { s \in SUBSET (N \ {i}) : Cardinality(s) = 2 /\ \A j \in s : \A k \in N \ (s \union {i}) : D2(P, i, k) >= D2(P, i, j) - slack }
NearPairs(P, i, slack) ==
  LET others == DOMAIN P \ {i}
      rank(j) == Cardinality({ k \in others : D2(P, i, k) < D2(P, i, j) - slack })
  IN Pairs(P, { j \in others : rank(j) < 2 }, i, slack)
\* possible verdicts for spot i: subset of BOOLEAN
Verdicts(P, i, lim2, L, right, slack) ==
  IF Cardinality(DOMAIN P) < 3 THEN {TRUE}     \* fewer than two neighbours
  ELSE UNION { LET near == { j \in s : D2(P, i, j) <= lim2 + slack }
                   sure == { j \in s : D2(P, i, j) < lim2 - slack }
                   jk == CHOOSE p \in s \X s : p[1] # p[2]
                   o == IF right THEN OpeningRight(P, i, jk[1], jk[2]) ELSE Opening(P, i, jk[1], jk[2], L)
               IN (IF near # s \/ o <= 0 THEN {TRUE} ELSE {}) \union (IF sure = s /\ o >= 0 THEN {FALSE} ELSE {})
                  \union (IF near = s /\ sure # s THEN BOOLEAN ELSE {})
             : s \in NearPairs(P, i, slack) }
Ok(P, i, lim2, L) == TRUE \in Verdicts(P, i, lim2, L, FALSE, 0)
\* groups
Close(P, i, j, lim2) == i # j /\ D2(P, i, j) < lim2
Apart(P, G, lim2) == \A i, j \in G : ~Close(P, i, j, lim2)
=============================================================================
