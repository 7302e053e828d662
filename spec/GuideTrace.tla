------------------------------ MODULE GuideTrace ------------------------------
(***************************************************************************)
(* Recorded runs.                                                          *)
(* "read": e.R rows [dx, dy (detection minus star, mas), known, cam, spot],*)
(*   e.maxsep (mas), e.kept (row numbers), e.at: <<[row, dx, dy]>> position*)
(*   used for the star minus where it is (mas), e.rc.                      *)
(* "fit": e.R, e.kept, e.nstars, e.res: <<[row, dx, dy]>> mapped detection *)
(*   minus star (mas), e.back: the star mapped to the focal plane minus    *)
(*   detection (0.1 um), e.rot (field rotation, 1e-6 deg), e.turn: rotation*)
(*   of the simulated sky in four directions (1e-6 deg), e.scales: fitted  *)
(*   minus simulated (1e-7), e.rms (mas).                                  *)
(* "same": e.a, e.b models (integers), e.tol.                              *)
(* "corr": e.res of a plane correction (mas), e.tol.                       *)
(* "prog": as "fit", after the program, also e.meta.                       *)
(* "lst": e.d: sidereal time minus reference (1e-4 deg).                   *)
(***************************************************************************)
EXTENDS Guide, TraceCheck
SetOf(q) == { q[i] : i \in DOMAIN q }
Abs(x) == IF x < 0 THEN -x ELSE x
Sure(r, e) == r.known /\ Abs(r.dx) < 30000 /\ Abs(r.dy) < 30000 /\ r.dx * r.dx + r.dy * r.dy < (e.maxsep - 3) * (e.maxsep - 3)
Maybe(r, e) == r.known /\ Abs(r.dx) < 30000 /\ Abs(r.dy) < 30000 /\ r.dx * r.dx + r.dy * r.dy < (e.maxsep + 3) * (e.maxsep + 3)
Full(r) == [sep |-> 0, known |-> r.known, pm |-> "known", cam |-> r.cam, spot |-> r.spot]
ReadFails(e) ==
  LET must == { i \in DOMAIN e.R : Sure(e.R[i], e) /\ e.R[i].spot } may == { i \in DOMAIN e.R : Maybe(e.R[i], e) } got == SetOf(e.kept) IN
  IF e.rc = "error" THEN (IF must = {} THEN {} ELSE {"refused"})
  ELSE (IF must \subseteq got THEN {} ELSE {"star-lost"})
    \union (IF got \subseteq may THEN {} ELSE {"unmatched-kept"})
    \union (IF Cardinality(got) # Len(e.kept) THEN {"row-twice"} ELSE {})
    \union (IF \E x \in SetOf(e.at) : x.row \in got /\ (Abs(x.dx) > 2 \/ Abs(x.dy) > 2) THEN {"wrong-star-position"} ELSE {})
\* the fit is exact to second order in the rotation e.zp (1e-3 deg) only
Tol(e) == 45 + (e.zp * e.zp) \div 30000
MapFails(e) ==
  IF e.rc # "zero" THEN {"failed"}
  ELSE LET K == SetOf(e.kept) good == { i \in K : Usable(Full(e.R[i])) } IN
    (IF e.nstars # Cardinality(good) THEN {"wrong-stars-used"} ELSE {})
    \union (IF \E x \in SetOf(e.res) : x.row \in good /\ ~(Abs(x.dx) <= Tol(e) /\ Abs(x.dy) <= Tol(e)) THEN {"not-mapped-to-star"} ELSE {})
    \union (IF \E x \in SetOf(e.back) : x.row \in good /\ ~(Abs(x.dx) <= Tol(e) /\ Abs(x.dy) <= Tol(e)) THEN {"not-mapped-to-detection"} ELSE {})
    \union (IF \E i \in DOMAIN e.scales : Abs(e.scales[i]) > 60 THEN {"wrong-scale"} ELSE {})
    \union (IF e.rms > 10 THEN {"wrong-rms"} ELSE {})
    \union (IF Abs(4 * e.rot - e.turn[1] - e.turn[2] - e.turn[3] - e.turn[4]) > 400 THEN {"wrong-field-rotation"} ELSE {})
GFails(e) ==
  CASE e.op = "read" -> ReadFails(e)
    [] e.op = "fit" -> MapFails(e)
    [] e.op = "prog" -> MapFails(e) \union (IF e.rc = "zero" /\ e.meta # e.want THEN {"wrong-header-values"} ELSE {})
    [] e.op = "refuse" -> (IF e.rc = "zero" THEN {"accepted"} ELSE {}) \union (IF e.file THEN {"written"} ELSE {})
    [] e.op = "same" -> IF Len(e.a) = Len(e.b) /\ \A i \in DOMAIN e.a : Abs(e.a[i] - e.b[i]) <= e.tol THEN {} ELSE {"depends-on-" \o e.how}
    [] e.op = "corr" -> IF \A x \in SetOf(e.res) : Abs(x) <= e.tol THEN {} ELSE {"correction-not-recovered"}
    [] OTHER -> IF \A x \in SetOf(e.d) : Abs(x) <= e.tol THEN {} ELSE {"sidereal-time"}
=============================================================================
