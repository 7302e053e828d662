------------------------------- MODULE SpotTrace -------------------------------
(***************************************************************************)
(* Recorded detections.  Every event carries the settings of its image:    *)
(* noise (0.1 counts per pixel), minpix, nsig, cut (counts), sig (PSF,     *)
(* 0.01 pixel), round (is the PSF round), lit (part of the image that is   *)
(* not dark, percent).                                                     *)
(* "spot": a simulated spot: edge (distance to the border), near (to the   *)
(*   closest other spot, both 0.001 pixel), ratio (brightness of the       *)
(*   others within reach / own, 0.1), c (counts), hits: rows within 0.9    *)
(*   pixel, <<dx, dy, counts, xerr, yerr>> (0.001, 1, 0.0001 pixel).       *)
(* "row": a reported row: away (from the closest spot, 0.001 pixel), edge,  *)
(*   c.  The light of a wide spot cut by the border has its peak elsewhere. *)
(* "image": rc, n (simulated spots), rows, same (image left alone), finite.*)
(* "conv": smoothed impulse: sum (1e-6), off: its maximum minus the impulse*)
(*   position (pixels), odd: largest asymmetry (1e-9).                     *)
(* "stamp": one fit on a stamp: dx, dy (0.001 pixel), dc (counts), c.      *)
(* "same": rows of two runs of one image.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceCheck
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
\* least and greatest height of the smoothed spot, ten times
Low10(e) == (e.c * 62) \div ((e.sig * e.sig) \div 100)
High10(e) == (e.c * 85) \div ((e.sig * e.sig) \div 100)
\* threshold, ten times: the noise falls to 0.282 of itself
Thr10(e) == Max(10 * e.minpix, (e.nsig * e.noise * 2821) \div (100 * e.sig))
Must(e) == e.edge >= 3600 /\ e.near >= 4500 /\ 10 * Low10(e) >= 12 * Thr10(e) + 10 * e.noise /\ 10 * e.c >= 11 * e.cut + 10 * e.noise
Cannot(e) == e.near >= 7000 /\ (10 * High10(e) < 8 * Thr10(e) - 10 * e.noise \/ 10 * e.c < 9 * e.cut - 10 * e.noise)
Tol(e) == 10 + (e.noise * 30 * e.sig) \div e.c + (IF e.round THEN 0 ELSE 15)
   + (IF e.near < 5500 THEN 35 * e.ratio ELSE IF e.near < 7000 THEN 6 * e.ratio ELSE 0)
CTol(e) == e.c \div (IF ~e.round THEN 12 ELSE IF e.lit > 12 \/ e.sig > 120 THEN 20 ELSE 50) + 3 * e.noise + (IF e.near < 7000 THEN (e.c * e.ratio) \div 80 ELSE 0)
\* uncertainty of a position for white noise: noise / counts * sig^2 * 5.7 in 0.0001 pixel
Unc(e) == (e.noise * ((5700 * e.sig * e.sig) \div 10000)) \div e.c
SpotFails(e) ==
  IF e.rc # "ok" /\ e.rc # "none" THEN {}
  ELSE LET H == { e.hits[i] : i \in DOMAIN e.hits } IN
    (IF Len(e.hits) > 1 THEN {"spot-twice"} ELSE {})
    \union (IF Must(e) /\ H = {} THEN {"spot-lost"} ELSE {})
    \union (IF Cannot(e) /\ H # {} THEN {"too-faint-reported"} ELSE {})
    \union (IF Must(e) /\ Len(e.hits) = 1 THEN
       (IF \E h \in H : Abs(h[1]) > Tol(e) \/ Abs(h[2]) > Tol(e) THEN {"misplaced"} ELSE {})
       \union (IF \E h \in H : Abs(h[3] - e.c) > CTol(e) THEN {"wrong-counts"} ELSE {})
       \union (IF e.noise >= 50 /\ e.near >= 7000 /\ e.lit <= 12 /\ e.sig <= 120 /\ Unc(e) >= 10 /\ e.round /\ \E h \in H : \E k \in {4, 5} : 20 * h[k] < 17 * Unc(e) - 20 \/ 10 * h[k] > 12 * Unc(e) + 10 THEN {"wrong-uncertainty"} ELSE {})
       ELSE {})
SFails(e) ==
  CASE e.op = "spot" -> SpotFails(e)
    [] e.op = "row" -> IF e.away <= (IF e.edge < 3600 /\ e.sig > 100 THEN 15 * e.sig ELSE 900) THEN {} ELSE {"nothing-there"}
    [] e.op = "image" -> (IF e.rc = "error" THEN {"failed"} ELSE {}) \union (IF e.same THEN {} ELSE {"image-modified"})
         \union (IF e.finite THEN {} ELSE {"undefined-values"})
         \union (IF e.rc = "many" /\ e.n <= 10000 THEN {"refused"} ELSE {}) \union (IF e.n = 0 /\ e.rows > 0 THEN {"nothing-there"} ELSE {})
         \union (IF e.named THEN {} ELSE {"columns"})
    [] e.op = "conv" -> (IF Abs(e.sum - 1000000) <= 10 THEN {} ELSE {"light-lost"}) \union (IF e.off = <<0, 0>> THEN {} ELSE {"moved"})
         \union (IF e.odd <= 10 THEN {} ELSE {"asymmetric"}) \union (IF e.shape THEN {} ELSE {"shape"})
    [] OTHER -> (IF Abs(e.dx) <= e.tol /\ Abs(e.dy) <= e.tol THEN {} ELSE {"centroid"}) \union (IF Abs(e.dc) <= 5 + e.c \div 1000 \/ e.bary THEN {} ELSE {"flux"})
=============================================================================
