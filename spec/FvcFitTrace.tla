---------------------------- MODULE FvcFitTrace -----------------------------
(***************************************************************************)
(* Recorded histories of FVC map objects. State: the parameters of the     *)
(* object as text, and the metrology (identity -> coordinates, um).        *)
(* e.full: the distortion has all low-order terms; e.zbclose: it was the   *)
(* true one before the fit; e.sgood, e.rgood: scale, rotation were.        *)
(* e.err: largest error of the fitted map (nm); e.perm: the same for the   *)
(* difference with the fit of the permuted input. e.rows: per spot         *)
(* [identity or 0, metrology columns x, y, z (um), position minus map x, y *)
(* (pm)].                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceRuns
FfStart(e) == [par |-> e.par, met |-> e.met]
FfFollow(s, e) == IF "exc" \in DOMAIN e THEN s ELSE [s EXCEPT !.par = e.par]
FfTol(e) == IF e.op = "settle" THEN 60000  \* the last of eight free fits, from another distortion
          ELSE IF e.o.zb
          THEN IF e.full THEN (IF (e.o.fixs /\ ~e.sgood) \/ (e.o.fixr /\ ~e.rgood) THEN 40000 ELSE 10000)
               ELSE IF e.zbclose /\ (e.o.fixs => e.sgood) /\ (e.o.fixr => e.rgood) THEN 10000 ELSE -1
          ELSE IF e.zbclose /\ (e.o.fixs => e.sgood) /\ (e.o.fixr => e.rgood) THEN 2000 ELSE -1
Abs(x) == IF x < 0 THEN -x ELSE x
FfFails(s, e) ==
  IF "exc" \in DOMAIN e THEN {"raised"}
  ELSE
  (IF e.o.fixs /\ e.par.scale # s.par.scale THEN {"fixed-scale-changed"} ELSE {})
  \union (IF e.o.fixr /\ e.par.rotation # s.par.rotation THEN {"fixed-rotation-changed"} ELSE {})
  \union (IF ~e.o.zb /\ e.par.zb # s.par.zb THEN {"distortion-changed"} ELSE {})
  \union (IF e.par.frame # s.par.frame THEN {"pixel-frame-changed"} ELSE {})
  \union (IF FfTol(e) >= 0 /\ Abs(e.err) > FfTol(e) THEN {"map-not-recovered"} ELSE {})
  \union (IF Abs(e.perm) > 300 THEN {"depends-on-row-order"} ELSE {})
  \union (IF e.nmatch # e.npin THEN {"wrong-number-of-matches"} ELSE {})
  \union (IF \E i \in DOMAIN e.stat : Abs(e.stat[i]) > 2000 THEN {"wrong-statistics"} ELSE {})
  \union (IF ~e.pure THEN {"input-changed"} ELSE {})
  \union (IF ~e.o.update THEN {} ELSE
       (IF \E i \in DOMAIN e.rows : Abs(e.rows[i][5]) > 1000 \/ Abs(e.rows[i][6]) > 1000 THEN {"position-not-from-map"} ELSE {})
       \union (IF \E i \in DOMAIN e.rows : e.rows[i][1] = 0 /\ (e.rows[i][2] # 0 \/ e.rows[i][3] # 0 \/ e.rows[i][4] # 0)
               THEN {"metrology-for-unmatched-spot"} ELSE {})
       \union (IF \E i \in DOMAIN e.rows : e.rows[i][1] # 0 /\
                   LET m == s.met[ToString(e.rows[i][1])] IN \E k \in 1..3 : Abs(e.rows[i][k + 1] - m[k]) > 1
               THEN {"metrology-of-another-pinhole"} ELSE {}))
=============================================================================
