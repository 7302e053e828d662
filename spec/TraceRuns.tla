------------------------------ MODULE TraceRuns ------------------------------
(***************************************************************************)
(* Conformance loop shared by the specifications with state: recorded runs *)
(* of the implementation (concatenated; each run opens with an event whose *)
(* op is "start") are consumed one event per step.  Follow(s, e) is the    *)
(* specification state after event e taken in state s, Fails(s, e) the set *)
(* of clauses that e breaks in state s (total, never an error).            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Fails(_, _), Follow(_, _), Start(_)
VARIABLES l, st

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == l = 0 /\ st = <<>>

TraceNext ==
  /\ l < Len(TraceLog)
  /\ l' = l + 1
  /\ LET e == TraceLog[l + 1] IN
       IF e.op = "start" THEN st' = Start(e)
       ELSE LET bad == Fails(st, e) IN
              /\ st' = Follow(st, e)
              /\ IF bad = {} THEN TRUE
                 ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> bad]))
  /\ IF l + 1 = Len(TraceLog) THEN PrintT("@@END " \o ToJson(l + 1)) ELSE TRUE
=============================================================================
