------------------------------ MODULE SkyTrace ------------------------------
(***************************************************************************)
(* Walks between sky and focal plane. Directions are unit vectors in units *)
(* of 1e-9, tangent coordinates in 1e-9, lengths in nm. Beyond path        *)
(* independence:                                                           *)
(*   want    where the elementary transform must put the point             *)
(*   centre  the field centre is at the origin                             *)
(*   rot     requested and realised field rotation, microdegrees           *)
(***************************************************************************)
EXTENDS FrameTrace
Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in 1..Len(a) : AbsI(a[i]) < 1900000000 /\ AbsI(b[i]) < 1900000000
                                            /\ AbsI(a[i] - b[i]) <= tol
SkyFails(s, e) ==
  LET base == FFails(s, e) IN
  IF base \intersect {"raised", "not-finite"} # {} THEN base
  ELSE base
    \union (IF "want" \in DOMAIN e /\ ~Close(e.v, e.want, e.wtol) THEN {"wrong-direction"} ELSE {})
    \union (IF "centre" \in DOMAIN e /\ ~Close(e.v, <<0, 0>>, e.centre) THEN {"centre-not-at-origin"} ELSE {})
    \union (IF "rot" \in DOMAIN e /\ ~Close(<<e.rot[1]>>, <<e.rot[2]>>, 60) THEN {"wrong-field-rotation"} ELSE {})
    \union (IF e.pure THEN {} ELSE {"inputs-modified"})
=============================================================================
