----------------------------- MODULE ChainTrace ------------------------------
(***************************************************************************)
(* Walks along the coordinate chain of one positioner: FrameTrace plus the *)
(* law of every elementary transform (offsets add, arms are two-link       *)
(* kinematics, flattening is radial).  Angles in microdegrees, lengths in  *)
(* nanometres, arm lengths in micrometres.                                 *)
(***************************************************************************)
EXTENDS FrameTrace, Kinematics

\* prev: value before the step (recorded), par: the positioner's parameters
LawOk(e) ==
  CASE e.e = "int2ext" -> /\ AbsI(e.v[1] - (e.prev[1] + e.par.to)) <= 2
                          /\ AbsI(e.v[2] - (e.prev[2] + e.par.po)) <= 2
    [] e.e = "ext2int" -> /\ AbsI(e.v[1] - (e.prev[1] - e.par.to)) <= 2
                          /\ AbsI(e.v[2] - (e.prev[2] - e.par.po)) <= 2
    [] e.e = "ext2loc" ->
         LET T == RDiv(e.prev[1], 1000)  P == RDiv(e.prev[2], 1000) IN
         /\ Abs(FwdX(T, P, e.par.r1, e.par.r2) - RDiv(e.v[1], 100)) <= 8
         /\ Abs(FwdY(T, P, e.par.r1, e.par.r2) - RDiv(e.v[2], 100)) <= 8
    [] e.e = "loc2flat" -> /\ AbsI(e.v[1] - (e.prev[1] + e.par.xo)) <= 2
                           /\ AbsI(e.v[2] - (e.prev[2] + e.par.yo)) <= 2
    [] e.e = "flat2loc" -> /\ AbsI(e.v[1] - (e.prev[1] - e.par.xo)) <= 2
                           /\ AbsI(e.v[2] - (e.prev[2] - e.par.yo)) <= 2
    \* flattening keeps the direction (cross product 0, in 10 um squared) and
    \* stretches the radius outwards by less than a millimetre
    [] e.e \in {"flat2ptl", "ptl2flat"} ->
         LET a == [i \in 1..2 |-> RDiv(e.v[i], 10000)]  b == [i \in 1..2 |-> RDiv(e.prev[i], 10000)]
             grow == IF e.e = "ptl2flat" THEN 1 ELSE -1
             move(i) == AbsI(e.v[i]) - AbsI(e.prev[i])
         IN /\ AbsI(a[1] * b[2] - a[2] * b[1]) <= 90000
            /\ \A i \in 1..2 : /\ grow * move(i) >= -2 /\ AbsI(move(i)) <= 1000000
                               /\ (AbsI(e.prev[i]) > 2000000 => (e.v[i] > 0) = (e.prev[i] > 0))
    [] OTHER -> TRUE

CFails(s, e) ==
  LET base == FFails(s, e) IN
  IF base \intersect {"raised", "not-finite"} # {} THEN base
  ELSE base \union (IF LawOk(e) THEN {} ELSE {"law-" \o e.e})
            \union (IF e.u THEN {"false-unreachable"} ELSE {})
            \union (IF e.pure THEN {} ELSE {"inputs-modified"})
=============================================================================
