--------------------------------- MODULE Guide ---------------------------------
(***************************************************************************)
(* Fit of the field model on guide stars.                                  *)
(* A catalogue row: [sep (distance between the detection and the star, in  *)
(* mas), known (are the positions of detection and star there), pm ("none" *)
(* no such columns, "known", "unknown"), cam (is the camera known), spot   *)
(* (is the centroid there)].                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Matched(r, maxsep) == r.known /\ r.sep < maxsep
Usable(r) == r.cam /\ r.spot /\ r.known
\* rows the reader keeps, rows the fit uses
Kept(R, maxsep) == { i \in DOMAIN R : Matched(R[i], maxsep) }
Used(R, S) == { i \in S : Usable(R[i]) }
\* the plane: rotations by quarter turns about the origin, offsets
Rot(k, v) == CASE k = 0 -> v [] k = 1 -> <<-v[2], v[1]>> [] k = 2 -> <<-v[1], -v[2]>> [] OTHER -> <<v[2], -v[1]>>
Inv(k) == IF k = 1 THEN 3 ELSE IF k = 3 THEN 1 ELSE k
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
\* a correction is an offset followed by a rotation
Apply(c, v) == Rot(c.k, Add(v, c.off))
=============================================================================
