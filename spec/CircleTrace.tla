------------------------------ MODULE CircleTrace ------------------------------
(***************************************************************************)
(* Recorded calls.                                                         *)
(* "fit", "robust": e.pts, e.r (true radius, 0: the points are on no       *)
(*   circle of the instrument), e.exact, e.out (which points were moved    *)
(*   away, by more than 600), e.rc, e.c, e.R (answer), e.ok (points used). *)
(* "row": e.d (a device, see Circle), e.listed, e.once, e.c (centre minus  *)
(*   true one), e.metro (written expected position minus given one).       *)
(***************************************************************************)
EXTENDS Circle, TraceCheck
All(e) == DOMAIN e.pts
Out(e) == { i \in All(e) : e.out[i] }
Used(e) == { i \in All(e) : e.ok[i] }
\* the simulated points are what they are said to be
Honest(e) == \A i \in All(e) : LET d == Abs(Dist(e.pts[i], <<0, 0>>) - e.r) IN IF e.out[i] THEN d >= 600 ELSE d <= (IF e.exact THEN 2 ELSE 60)
Possible(e) == e.r >= Smallest + 40 /\ e.r <= Largest - 40
Impossible(e) == e.r <= Smallest - 100 \/ e.r >= Largest + 100
Tol(e) == IF e.exact THEN 2 ELSE 60
Near(e) == Abs(e.c[1]) <= Tol(e) /\ Abs(e.c[2]) <= Tol(e)
FitFails(e) ==
  IF e.rc = "refused" THEN (IF Possible(e) THEN {"refuses-a-good-circle"} ELSE {})
  ELSE IF e.rc # "ok" THEN {"failed"}
  ELSE IF Impossible(e) THEN {"accepts-an-impossible-radius"}
  ELSE (IF e.R < Smallest - 1 \/ e.R > Largest + 1 THEN {"radius-out-of-range"} ELSE {})
    \union (IF Near(e) THEN {} ELSE {"wrong-centre"})
    \union (IF Abs(e.R - e.r) <= Tol(e) THEN {} ELSE {"wrong-radius"})
    \union (IF Stationary(e.pts, All(e), e.c, e.R) THEN {} ELSE {"not-least-squares"})
RobustFails(e) ==
  IF e.rc # "ok" THEN {"failed"}
  ELSE (IF Used(e) = All(e) \ Out(e) THEN {} ELSE IF Used(e) \intersect Out(e) # {} THEN {"outlier-used"} ELSE {"good-point-rejected"})
    \union (IF Near(e) THEN {} ELSE {"wrong-centre"})
    \union (IF Abs(e.R - e.r) <= Tol(e) THEN {} ELSE {"wrong-radius"})
    \union (IF ~Possible(e) \/ Stationary(e.pts, Used(e), e.c, e.R) THEN {} ELSE {"not-least-squares"})
RowFails(e) ==
  IF e.listed \notin Listed(e.d) THEN (IF e.listed THEN {"device-listed"} ELSE {"device-missing"})
  ELSE IF ~e.listed THEN {}
  ELSE (IF e.once THEN {} ELSE {"device-twice"})
    \union (IF Abs(e.c[1]) <= 3 /\ Abs(e.c[2]) <= 3 THEN {} ELSE {"wrong-centre"})
    \union (IF e.metro = <<0, 0>> THEN {} ELSE {"wrong-expected-position"})
CFails(e) ==
  CASE e.op = "fit" -> IF Honest(e) THEN FitFails(e) ELSE {"harness-case-wrong"}
    [] e.op = "robust" -> IF Honest(e) /\ Guaranteed(Len(e.pts), Cardinality(Out(e))) THEN RobustFails(e) ELSE {"harness-case-wrong"}
    [] e.op = "row" -> RowFails(e)
    [] OTHER -> IF e.rc = "ok" THEN {} ELSE {"failed"}
===============================================================================
