------------------------------ MODULE OutsideTrace ------------------------------
(***************************************************************************)
(* Recorded calls.  e.prog: what the program did; e.rc: "ok" or "refused"; *)
(* e.given, e.want: for every file, what the program found in it and what  *)
(* this call has to hand over: sequences of <<label, x, y, flag>> (1e-3);  *)
(* e.radius, e.myradius, e.scale, e.myscale (nm per pixel), e.reach (um);  *)
(* e.lines: output of the program for this call, [loc, x, y, flag, err,    *)
(* type]; e.rows: the table, the same with type, pin and info; e.info: for *)
(* the locations what the metrology says.                                  *)
(***************************************************************************)
EXTENDS Outside, TraceCheck
Near(u, v) == u[1] = v[1] /\ Abs(u[2] - v[2]) <= 2 /\ Abs(u[3] - v[3]) <= 2 /\ u[4] = v[4]
SameFile(a, b) == Len(a) = Len(b) /\ (\A i \in DOMAIN a : \E j \in DOMAIN b : Near(a[i], b[j])) /\ (\A j \in DOMAIN b : \E i \in DOMAIN a : Near(a[i], b[j]))
GivenFails(e) ==
  { "wrong-" \o f : f \in { f \in DOMAIN e.want : ~SameFile(e.given[f], e.want[f]) } }
  \union (IF e.radius = e.myradius THEN {} ELSE {"wrong-radius"})
  \union (IF 100 * Abs(e.scale - e.myscale) <= e.myscale THEN {} ELSE {"wrong-scale"})
  \union (IF e.prog = "old" \/ Abs(e.reach - 6600) <= 60 THEN {} ELSE {"wrong-reach"})
Same(u, v) == u.loc = v.loc /\ Abs(u.x - v.x) <= 1 /\ Abs(u.y - v.y) <= 1 /\ u.flag = v.flag /\ u.err = v.err /\ u.type = v.type
\* number of pinholes of the same fiducial among the first i rows
Nth(q, i) == Cardinality({ j \in 1..i : q[j].loc = q[i].loc /\ q[j].type = "pinhole" })
Pin(q, i) == CASE q[i].type = "fiducial" -> 99 [] q[i].type = "pinhole" -> 9 + Nth(q, i) [] OTHER -> 0
Info(e, loc) == LET k == { k \in DOMAIN e.info : e.info[k].loc = loc } IN e.info[CHOOSE i \in k : TRUE].what
RowsFails(e) ==
  IF Len(e.rows) # Len(e.lines) \/ \E i \in DOMAIN e.lines : ~Same(e.lines[i], e.rows[i]) THEN {"rows"}
  ELSE (IF \E i \in DOMAIN e.rows : e.rows[i].pin # Pin(e.lines, i) THEN {"pinhole-numbers"} ELSE {})
    \union (IF \E i \in DOMAIN e.rows : e.rows[i].info # (IF e.lines[i].loc < 0 THEN "none" ELSE Info(e, e.lines[i].loc)) THEN {"device-information"} ELSE {})
OFails(e) ==
  IF e.prog = "missing" THEN (IF e.rc = "ok" THEN {"answer-without-program"} ELSE {})
  ELSE (IF e.asked THEN GivenFails(e) ELSE {"program-not-called"})
    \union (IF ~MayAnswer(e.prog) THEN (IF e.rc = "ok" THEN {"answer-without-output"} ELSE {})
       ELSE IF e.rc # "ok" THEN {"failed"} ELSE RowsFails(e))
===============================================================================
