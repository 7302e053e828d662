------------------------------ MODULE FiberTrace ------------------------------
(***************************************************************************)
(* Recorded calls: e.s the expression as characters, e.out "list" with e.v *)
(* (whole = all values are integers) or "error".                           *)
(***************************************************************************)
EXTENDS FiberList, TraceCheck
PFails(e) ==
  LET d == Denote(e.s) IN
  IF d.ok THEN (IF e.out # "list" THEN {"refused"} ELSE IF e.v # d.v \/ ~e.whole THEN {"wrong-list"} ELSE {})
  ELSE IF e.out = "list" THEN {"malformed-accepted"} ELSE IF e.out # "error" THEN {"ended-without-error"} ELSE {}
=============================================================================
