----------------------------- MODULE AngleTrace ------------------------------
(* Conformance of recorded directed rotations: e = [s, f, d, n, got], got the *)
(* list of answers for every way of passing the same arguments.             *)
EXTENDS Integers, Sequences, TraceCheck
s == 0
f == 0
dir == 0
du == 0
pc == ""
A == INSTANCE AngleModel WITH Step <- 1, Span <- 1
EventFails(e) ==
  LET want == A!Delta(e.s, e.f, e.d) IN
  UNION { IF e.got[i] = want THEN {}
          ELSE IF e.got[i] >= 1900000000 THEN {"raised"}
          ELSE IF (e.got[i] - want) % 360000 # 0 THEN {"wrong-angle"}
          ELSE IF e.d # 0 /\ A!Sgn(e.got[i]) \notin {0, e.d} THEN {"wrong-direction"}
          ELSE {"wrong-turns"} : i \in 1..Len(e.got) }
=============================================================================
