------------------------------- MODULE CallTrace -------------------------------
(***************************************************************************)
(* Recorded calls.  A run consists of calls made first thing in a process   *)
(* of their own (e.ref) and of calls made in histories of other processes.  *)
(* e.key: function and arguments; e.form: what kind of result (shapes,      *)
(* types, names, error); e.val: its numbers, relative to e.unit; e.tol:     *)
(* rounding allowed; e.intact: the arguments are as they were given;        *)
(* e.world: environment and settings are as they were.                      *)
(* State: the results of the calls made first thing.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, TraceRuns
Abs(n) == IF n < 0 THEN -n ELSE n
CStart(e) == <<>>
CFollow(s, e) == IF e.ref THEN (e.key :> [form |-> e.form, val |-> e.val]) @@ s ELSE s
Close(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= t
CFails(s, e) ==
  (IF e.intact THEN {} ELSE {"argument-changed"})
  \union (IF e.world THEN {} ELSE {"settings-changed"})
  \union (IF e.ref THEN (IF e.key \in DOMAIN s /\ s[e.key] # [form |-> e.form, val |-> e.val] /\ ~Close(s[e.key].val, e.val, e.tol) THEN {"not-reproducible"} ELSE {})
     ELSE IF e.key \notin DOMAIN s THEN {"no-reference"}
     ELSE IF s[e.key].form # e.form THEN {"other-outcome"}
     ELSE IF Close(s[e.key].val, e.val, e.tol) THEN {} ELSE {"other-values"})
=============================================================================
