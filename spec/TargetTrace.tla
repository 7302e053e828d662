---------------------------- MODULE TargetTrace -----------------------------
(* Conformance of recorded target resolutions.                             *)
EXTENDS TargetReq, TraceCheck
EventFails(e) ==
  IF e.op = "fwd"
  THEN IF /\ Abs(FwdX(e.T, e.P, e.r1, e.r2) - e.x) <= 12
          /\ Abs(FwdY(e.T, e.P, e.r1, e.r2) - e.y) <= 12 THEN {} ELSE {"forward-kinematics"}
  ELSE IF "exc" \in DOMAIN e.o THEN {"raised"} ELSE Broken(e.q, e.o)
=============================================================================
