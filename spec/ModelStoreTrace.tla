--------------------------- MODULE ModelStoreTrace ---------------------------
(***************************************************************************)
(* Recorded histories of two objects of a model class and two places.      *)
(* State: the two objects and the two places, each a record of             *)
(*   par   its public parameters, canonical text by name                   *)
(*   out   its results on a fixed grid (integers)                          *)
(*   json  what it writes, canonical text                                  *)
(* Every event carries both objects as they are after it.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceRuns
Abs(x) == IF x < 0 THEN -x ELSE x
SameOut(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
MsStart(e) == [obj |-> e.obj, store |-> [text |-> <<>>, file |-> <<>>], used |-> {}]
MsFollow(s, e) ==
  IF "exc" \in DOMAIN e THEN s
  ELSE [obj |-> e.obj,
        store |-> IF e.op = "save" THEN [s.store EXCEPT ![e.a] = e.obj[e.o]] ELSE s.store,
        used |-> IF e.op = "save" THEN s.used \union {e.a} ELSE s.used]
Other(o) == IF o = "A" THEN "B" ELSE "A"
Names(r) == DOMAIN r.par
MsFails(s, e) ==
  IF "exc" \in DOMAIN e THEN {"raised"}
  ELSE
  (IF e.op # "import" /\ (e.obj[Other(e.o)].par # s.obj[Other(e.o)].par \/ e.obj[Other(e.o)].out # s.obj[Other(e.o)].out
       \/ e.obj[Other(e.o)].json # s.obj[Other(e.o)].json) THEN {"another-object-changed"} ELSE {})
  \union
  (CASE e.op = "save" ->
        (IF e.obj[e.o] # s.obj[e.o] THEN {"changed-by-saving"} ELSE {})
        \union (IF e.text # e.obj[e.o].json THEN {"saves-another-text"} ELSE {})
     [] e.op = "load" /\ e.a \in s.used ->
        LET was == s.store[e.a]  is == e.obj[e.o] IN
        (IF Names(is) # Names(was) \/ \E n \in Names(is) \cap Names(was) : is.par[n] # was.par[n]
         THEN {"parameter-lost"} ELSE {})
        \union (IF ~SameOut(is.out, was.out, 1) THEN {"computes-differently"} ELSE {})
        \union (IF is.json # was.json THEN {"writes-another-json"} ELSE {})
     [] e.op = "import" ->   \* a text of an earlier version, beside its equivalent of the current one
        (IF ~SameOut(e.new.out, e.old.out, 1) THEN {"older-version-misread"} ELSE {})
        \union (IF e.new.par # e.old.par THEN {"older-version-misread"} ELSE {})
     [] OTHER -> {})
=============================================================================
