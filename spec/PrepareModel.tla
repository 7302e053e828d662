----------------------------- MODULE PrepareModel -----------------------------
(***************************************************************************)
(* All dialogues with at most Extra deviations from "no changes, commit    *)
(* all", on tables in which each row fails at most one check (and at which *)
(* tolerance), with duplicated positioners.                                *)
(* Cumulative: a repeated check starts from the rows left by its previous  *)
(* run (must break KeptIffPassed).                                         *)
(***************************************************************************)
EXTENDS Prepare, Json
CONSTANTS Extra, Cumulative, Tables
VARIABLES t, opt, s, ins, left, lost
R(id) == [id |-> id, miss |-> {}, nout |-> 0, ferr |-> 100, flags |-> {}, par |-> <<30100, 29900, 100000, 10000, 1000000, 100000>>, off |-> <<100, 200>>]
Table(n) ==
  CASE n = 1 -> <<R("A"), [R("B") EXCEPT !.ferr = 350], [R("A") EXCEPT !.nout = 3], R("C")>>
    [] n = 2 -> <<[R("A") EXCEPT !.miss = {"OFFSET_T_STATIC"}], R("B"), [R("C") EXCEPT !.flags = {"FAILED_FIT"}]>>
    [] n = 3 -> <<[R("A") EXCEPT !.par[3] = 1999000], R("B"), [R("C") EXCEPT !.off = <<100, 5200>>], [R("D") EXCEPT !.par[2] = 24800]>>
    [] n = 4 -> <<R("B"), R("A"), R("A"), R("A")>>
    [] n = 5 -> <<[R("A") EXCEPT !.nout = 2], [R("B") EXCEPT !.par[1] = 33000, !.ferr = 299], [R("C") EXCEPT !.off = <<4999, 4999>>, !.flags = {}]>>
    [] OTHER -> <<R("A"), R("A"), [R("B") EXCEPT !.ferr = 20000], R("B")>>
TT == Table(t)
Ins == { [w |-> w, v |-> 0] : w \in {"yes", "no", "help", "exit", "blank", "skip", "junk"} }
       \union { [w |-> "int", v |-> v] : v \in {0, 1, 2, 4} } \union { [w |-> "num", v |-> v] : v \in {1, 200, 400, 6000} }
\* what an operator without doubts enters
Plain == CASE s.at = "confirm" -> [w |-> "yes", v |-> 0] [] s.at = "ask" -> [w |-> "no", v |-> 0] [] s.at = "value" -> [w |-> "blank", v |-> 0]
           [] s.at = "dup" -> [w |-> "int", v |-> 0] [] s.at = "ack" -> [w |-> "blank", v |-> 0] [] OTHER -> [w |-> "yes", v |-> 0]
Init == /\ t \in Tables /\ opt \in [enabling : BOOLEAN] /\ s = Begin(Table(t), opt) /\ ins = <<>> /\ left = Extra
        /\ lost = {}
Over == s.at \in {"end", "exit"}
Next == /\ ~Over
        /\ \E in \in Ins :
             /\ left' = IF in = Plain THEN left ELSE left - 1
             /\ left' >= 0
             /\ s' = LET r == Step(TT, opt, s, in) IN
                     \* flaw: each run of a check drops its failures for good
                     IF Cumulative /\ ~opt.enabling THEN [r EXCEPT !.kept = r.kept \ lost] ELSE r
             /\ lost' = lost \union IF s.at = "value" /\ s'.at = "ask" THEN { i \in s.kept : FailsHere(TT, s, i) # {} } ELSE {}
             /\ ins' = Append(ins, in)
             /\ UNCHANGED <<t, opt>>
Ended == s.at = "end"
OneRowEach == Ended => \A i, j \in s.kept : i # j => TT[i].id # TT[j].id
Clean == Ended => \A i \in s.kept : \A k \in DOMAIN s.com : Committed(opt, s, i, k) => s.com[k] /\ (k = Len(Commits) \/ s.why[i] = {})
NothingKeptFailed == Ended /\ ~opt.enabling => \A i \in s.kept : s.why[i] = {}
\* a row goes only because it failed or another row of its positioner was chosen
KeptIffPassed == Ended => \A i \in DOMAIN TT : i \in s.kept \/ s.why[i] # {} \/ (\E j \in DOMAIN TT : j # i /\ TT[j].id = TT[i].id)
MissingNeverCommitted == Ended => \A i \in s.kept : TT[i].miss # {} => \A k \in 1..6 : ~Committed(opt, s, i, k)
Emit == Over => PrintT("@@CASE " \o ToJson([t |-> t, e |-> opt.enabling, ins |-> ins]))
ASSUME \A n \in 1..6 : PrintT("@@TABLE " \o ToJson([n |-> n, rows |-> [i \in DOMAIN Table(n) |-> [Table(n)[i] EXCEPT !.miss = SetToSeq(Table(n)[i].miss), !.flags = SetToSeq(Table(n)[i].flags)]]]))
=============================================================================
