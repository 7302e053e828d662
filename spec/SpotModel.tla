------------------------------- MODULE SpotModel -------------------------------
(***************************************************************************)
(* The detection step by step on a small image: smoothed image, local      *)
(* maxima above the threshold away from the border, a centroid for each    *)
(* (the fit ends on the nearest spot), the cut on counts, the removal of   *)
(* duplicates.  Flaw switches a mistake on.                                *)
(***************************************************************************)
EXTENDS Spots, TLC, Json
CONSTANTS N,        \* rows
          M,        \* columns
          Flaw
Margin == 3
Thr == 600          \* threshold of the smoothed image; a spot of brightness b has b * 10000 at its centre
Cut == 2            \* least brightness kept
X == {0, 2, 4, 5, 9, 13, 14, 2 * M - 9, 2 * M - 6, 2 * M - 4, 2 * M - 2}
Y == {0, 2, 3, 6, 8, 9, 2 * N - 8, 2 * N - 6, 2 * N - 5, 2 * N - 2}
Far(a, b) == LET dx == a.x - b.x dy == a.y - b.y IN dx * dx + dy * dy >= 64
Spot == [x : X, y : Y, b : {1, 2, 4}]
VARIABLES S, tilt, D, pc
vars == <<S, tilt, D, pc>>
Init ==
  /\ pc = "image" /\ D = <<>> /\ tilt \in {"none", "plus", "minus", "steps"}
  /\ S \in { <<a>> : a \in Spot } \union { <<a, b>> : a \in [x : {5, 13}, y : {6, 9}, b : {2, 4}], b \in Spot }
  /\ Len(S) = 2 => Far(S[1], S[2])
V(i, j) == Val(S, i, j) + Tilt(tilt, i, j)
Above(a, b) == IF Flaw = "loose" THEN a >= b ELSE a > b
Below(a, b) == IF Flaw = "strict" THEN a > b ELSE a >= b
Edge == IF Flaw = "edge" THEN 1 ELSE Margin
Peaks == { p \in (Edge..(N - 1 - Edge)) \X (Edge..(M - 1 - Edge)) :
            LET v == V(p[1], p[2]) IN
              /\ v > Thr
              /\ Above(v, V(p[1] - 1, p[2])) /\ Below(v, V(p[1] + 1, p[2]))
              /\ Above(v, V(p[1], p[2] - 1)) /\ Below(v, V(p[1], p[2] + 1)) }
Dist(k, p) == LET dx == S[k].x - 2 * p[2] dy == S[k].y - 2 * p[1] IN dx * dx + dy * dy
Nearest(p) == CHOOSE k \in DOMAIN S : \A q \in DOMAIN S : Dist(k, p) <= Dist(q, p)
\* the stamp of the fit leaves the image
Whole(p) == p[1] >= Margin /\ p[1] < N - Margin /\ p[2] >= Margin /\ p[2] < M - Margin
Find == pc = "image" /\ pc' = "cut" /\ UNCHANGED <<S, tilt>>
        /\ LET RECURSIVE List(_)
               List(P) == IF P = {} THEN <<>> ELSE LET p == CHOOSE q \in P : TRUE IN <<[spot |-> Nearest(p), ok |-> Whole(p)]>> \o List(P \ {p})
           IN D' = List(Peaks)
CutCounts == pc = "cut" /\ pc' = "dup" /\ UNCHANGED <<S, tilt>> /\ D' = SelectSeq(D, LAMBDA d : S[d.spot].b >= Cut)
Twice(i, j) == i # j /\ D[i].spot = D[j].spot
Without(i) == [k \in 1..(Len(D) - 1) |-> D[IF k < i THEN k ELSE k + 1]]
Duplicate == pc = "dup" /\ UNCHANGED <<S, tilt>>
  /\ IF Flaw # "twice" /\ \E i, j \in DOMAIN D : Twice(i, j)
     THEN /\ pc' = pc /\ \E i, j \in DOMAIN D : Twice(i, j) /\ D' = Without(i)
     ELSE pc' = "done" /\ D' = D
Next == Find \/ CutCounts \/ Duplicate
Found(k) == Cardinality({ i \in DOMAIN D : D[i].spot = k })
Inside(s) == s.x >= 2 * Margin + 1 /\ s.x <= 2 * (M - Margin) - 3 /\ s.y >= 2 * Margin + 1 /\ s.y <= 2 * (N - Margin) - 3
Once == pc = "done" => \A k \in DOMAIN S : (Inside(S[k]) /\ S[k].b >= Cut => Found(k) = 1) /\ Found(k) <= 1
Bright == pc = "done" => \A i \in DOMAIN D : S[D[i].spot].b >= Cut
Fits == \A i \in DOMAIN D : D[i].ok
EmitInv == IF pc = "done" /\ Flaw = "none" THEN PrintT("@@CASE " \o ToJson([S |-> S, tilt |-> tilt])) ELSE TRUE
=============================================================================
