----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Conformance loop shared by the specifications whose events are          *)
(* independent calls.  The recorded events (one JSON object per line, file *)
(* named by the environment variable TRACE) are consumed one per step; the *)
(* verdict of each event is the SET OF CLAUSES of the specification it     *)
(* breaks, so that the verdict is total: a broken clause is printed, never *)
(* an evaluation error or a deadlock.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Fails(_)          \* event -> set of clause names it breaks
VARIABLE l                 \* number of events consumed

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == l = 0

TraceNext ==
  /\ l < Len(TraceLog)
  /\ l' = l + 1
  /\ LET bad == Fails(TraceLog[l + 1]) IN
       IF bad = {} THEN TRUE
       ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> bad]))
  /\ IF l + 1 = Len(TraceLog) THEN PrintT("@@END " \o ToJson(l + 1)) ELSE TRUE
=============================================================================
