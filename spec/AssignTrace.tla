---------------------------- MODULE AssignTrace -----------------------------
(***************************************************************************)
(* Recorded runs of match_positioners. Lengths are integers (0.01 mm).     *)
(* e.metr: rows [x, y, arm, ok] of the metrology (ok: not a pinhole; arm   *)
(* includes the margin, 0 when there is no calibration: the median of the  *)
(* others is then used). e.spots: rows [x, y, ok] (ok: not a pinhole and   *)
(* bright enough). e.ind: positioner row (0-based, -1 none) of each spot;  *)
(* e.has: 1 where a score is reported for the spot. e.alts: as ind, for    *)
(* each alternative. e.poss: pairs [p, s] of the dictionary of possible    *)
(* assignments; e.printed: pairs printed, with the number of spots of the  *)
(* positioner and the elbow printed (micrometres, from centre and spot).   *)
(***************************************************************************)
EXTENDS AssignReq, TraceCheck
Range(f) == { f[i] : i \in DOMAIN f }
Median(sq) == LET s == SortSeq(sq, <)
                  n == Len(s)
              IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE (s[n \div 2] + s[n \div 2 + 1]) \div 2
Sq(x) == x * x
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
\* the pairs [spot index -> positioner] as a set of edges
EdgesOf(ind) == { <<ind[j] + 1, j>> : j \in { k \in DOMAIN ind : ind[k] # -1 } }
\* printed: [p, s, n, elbow-centre x, y, elbow-spot x, y, r1, r2, distance centre-spot]
ElbowOk(r) ==
  LET tol == 8 * (r[8] + r[9]) + 40 IN
  IF Near(r[8] + r[9], r[10], 3) THEN TRUE \* extended arm, within rounding
  ELSE IF r[8] + r[9] <= r[10]
  THEN /\ Sq(r[4]) + Sq(r[5]) >= Sq(r[8]) - tol /\ Sq(r[6]) + Sq(r[7]) >= Sq(r[9]) - tol
       /\ Near(r[4] * r[7], r[5] * r[6], tol)
  ELSE IF r[8] - r[9] > r[10] \/ r[9] - r[8] > r[10] THEN TRUE
  ELSE Near(Sq(r[4]) + Sq(r[5]), Sq(r[8]), tol) /\ Near(Sq(r[6]) + Sq(r[7]), Sq(r[9]), tol)
AsFails(e) ==
  IF "exc" \in DOMAIN e THEN {"raised"}
  ELSE
  LET P == { i \in DOMAIN e.metr : e.metr[i][4] = 1 }
      S == { j \in DOMAIN e.spots : e.spots[j][3] = 1 }
      known == SelectSeq(e.metr, LAMBDA r : r[4] = 1 /\ r[3] > 0)
      med == Median([i \in DOMAIN known |-> known[i][3]])
      arm(i) == IF e.metr[i][3] = 0 THEN med ELSE e.metr[i][3]
      E == { <<i, j>> \in P \X S :
               LET dx == e.metr[i][1] - e.spots[j][1]
                   dy == e.metr[i][2] - e.spots[j][2]
               IN Near(dx, 0, arm(i)) /\ Near(dy, 0, arm(i)) /\ Sq(dx) + Sq(dy) < Sq(arm(i)) }
      M == EdgesOf(e.ind)
      A == { EdgesOf(e.alts[k]) : k \in DOMAIN e.alts }
      poss == { <<r[1] + 1, r[2] + 1>> : r \in Range(e.poss) }
      printed == { <<r[1] + 1, r[2] + 1>> : r \in Range(e.printed) }
  IN (IF Len(e.ind) # Len(e.spots) THEN {"wrong-length"} ELSE {})
     \union AssignFails(E, P, S, M, e.score, A, poss)
     \union (IF \E j \in DOMAIN e.ind : (e.ind[j] # -1) # (e.has[j] = 1) THEN {"score-without-assignment"} ELSE {})
     \union (IF printed # poss \/ Cardinality(printed) # Len(e.printed) THEN {"wrong-groups-printed"} ELSE {})
     \union (IF \E r \in Range(e.printed) : r[3] # Cardinality({ f \in poss : f[1] = r[1] + 1 }) THEN {"wrong-number-printed"} ELSE {})
     \union (IF \E r \in Range(e.printed) : ~ElbowOk(r) THEN {"wrong-elbow"} ELSE {})
     \union (IF e.pure THEN {} ELSE {"inputs-modified"})
=============================================================================
