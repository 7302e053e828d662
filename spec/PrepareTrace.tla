----------------------------- MODULE PrepareTrace -----------------------------
(***************************************************************************)
(* Recorded sessions: e.rows, e.enabling, e.ins (what was entered), e.used *)
(* (number of inputs read), e.out: sequence of output rows [n, vals, com,  *)
(* dis, why], or e.file FALSE; e.rc "zero" / "error".                      *)
(***************************************************************************)
EXTENDS Prepare, TraceCheck
SetOf(q) == { q[i] : i \in DOMAIN q }
RowOf(r) == [r EXCEPT !.miss = SetOf(r.miss), !.flags = SetOf(r.flags)]
RECURSIVE Fold(_, _, _, _, _)
Fold(T, opt, s, in, n) == IF n > Len(in) \/ s.at \in {"end", "exit"} THEN <<s, n - 1>> ELSE Fold(T, opt, Step(T, opt, s, in[n]), in, n + 1)
\* orders in which duplicated positioners may be asked about
Orders(T) == LET D == { T[i].id : i \in { j \in DOMAIN T : \E m \in DOMAIN T : m # j /\ T[m].id = T[j].id } }
             IN SetToSeqs(D)
With(e, ord) ==
  LET T == [i \in DOMAIN e.rows |-> RowOf(e.rows[i])]
      opt == [enabling |-> e.enabling]
      f == Fold(T, opt, [Begin(T, opt) EXCEPT !.ord = ord], e.ins, 1)
      s == f[1]
      N(o) == o.n
  IN IF s.at = "end" /\ s.kept = {} THEN {}          \* nothing left: no statement
     ELSE IF s.at # "end" THEN (IF e.file THEN {"table-written-without-all-answers"} ELSE {})
     ELSE IF ~e.file THEN {"no-table"}
     ELSE (IF e.rc # "zero" THEN {"error-exit"} ELSE {})
       \union (IF \E j, k \in DOMAIN e.out : j # k /\ e.out[j].n = e.out[k].n THEN {"row-twice"} ELSE {})
       \union (IF \E j \in DOMAIN e.out : e.out[j].n \notin s.kept THEN {"row-not-to-be-kept"} ELSE {})
       \union (IF \E i \in s.kept : \A j \in DOMAIN e.out : e.out[j].n # i THEN {"row-lost"} ELSE {})
       \union UNION { LET o == e.out[j] i == o.n IN
            IF i \notin s.kept THEN {} ELSE
            (IF o.vals # e.rows[i].vals THEN {"values-changed"} ELSE {})
            \union (IF o.dis # (i \in Marked(opt, s)) THEN {"wrongly-marked"} ELSE {})
            \union (IF \E k \in DOMAIN Commits : o.com[k] /\ ~Committed(opt, s, i, k) THEN {"wrongly-committed"} ELSE {})
            \union (IF \E k \in DOMAIN Commits : ~o.com[k] /\ Committed(opt, s, i, k) THEN {"commit-lost"} ELSE {})
            \union (IF o.scale THEN {"scale-committed"} ELSE {})
            \union (IF opt.enabling /\ s.why[i] # SetOf(o.why) /\ ~(T[i].miss # {} /\ s.why[i] \subseteq SetOf(o.why)) THEN {"wrong-reasons"} ELSE {})
          : j \in DOMAIN e.out }
SFails(e) ==
  LET all == { With(e, o) : o \in Orders([i \in DOMAIN e.rows |-> RowOf(e.rows[i])]) }
  IN IF {} \in all THEN {} ELSE CHOOSE f \in all : TRUE
=============================================================================
