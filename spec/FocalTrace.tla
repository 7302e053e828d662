----------------------------- MODULE FocalTrace ------------------------------
(***************************************************************************)
(* Walks between the frames of the focal plane: path independence, plus    *)
(*   want   the value the placement data of that very location prescribes, *)
(*   rigid  distances between the points of a batch before and after a     *)
(*          placement (a rigid motion keeps them).                         *)
(* Lengths in nm (pixels, tangents and angles in units of about that size).*)
(***************************************************************************)
EXTENDS FrameTrace

Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in 1..Len(a) : AbsI(a[i]) < 1900000000 /\ AbsI(b[i]) < 1900000000
                                            /\ AbsI(a[i] - b[i]) <= tol

FocalFails(s, e) ==
  LET base == FFails(s, e) IN
  IF base \intersect {"raised", "not-finite"} # {} THEN base
  ELSE base
    \union (IF "want" \in DOMAIN e /\ ~Close(e.v, e.want, e.wtol) THEN {"wrong-placement"} ELSE {})
    \union (IF "rigid" \in DOMAIN e /\ ~Close(e.rigid[1], e.rigid[2], 5) THEN {"not-rigid"} ELSE {})
    \union (IF e.pure THEN {} ELSE {"inputs-modified"})
=============================================================================
