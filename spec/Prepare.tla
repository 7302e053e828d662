------------------------------- MODULE Prepare -------------------------------
(***************************************************************************)
(* The dialogue that prepares calibration results for the instrument       *)
(* (bin/prepare_posparams_for_instr) as a state machine driven by what the *)
(* operator enters.                                                        *)
(* A row: [id, miss, nout, ferr, flags, par, off, vals]: positioner, names *)
(* of missing required values, number of outliers, error of the fit        *)
(* (1e-4 mm, rounded down), set of flag names, values of the parameters    *)
(* (1e-4, rounded down), distances <<x, y>> of the offsets from nominal    *)
(* (1e-4 mm, rounded down).                                                *)
(* opt: [enabling]. An input is [w, v]: "yes", "no", "help", "exit",       *)
(* "blank", "skip", "junk", "int" (v the number), "num" (v in 1e-4).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Params == <<"LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y">>
Lo == <<25000, 25000, -2000000, -300000, -5000000, -5000000>>
Hi == <<35000, 35000, 2000000, 300000, 5000000, 5000000>>
Commits == Params \o <<"DEVICE_CLASSIFIED_NONFUNCTIONAL">>
Checks == <<"outliers", "fiterror", "flags", "bounds", "offsets", "arms", "unique">>
Adjustable == {"outliers", "fiterror", "bounds", "offsets", "arms"}
DefaultTol == [outliers |-> 20000, fiterror |-> 300, bounds |-> 10, offsets |-> 5000, arms |-> 5000]
AbsP(x) == IF x < 0 THEN -x ELSE x
Has(r, what) == what \notin r.miss
\* reasons for which a row fails check c at tolerance tol (1e-4)
Reasons(r, c, tol) ==
  CASE c = "outliers" -> IF Has(r, "NUM_POINTS") /\ Has(r, "NUM_POINTS_IN_FIT_STATIC") /\ r.nout * 10000 > tol THEN {"outliers"} ELSE {}
    [] c = "fiterror" -> IF Has(r, "FIT_ERROR_STATIC") /\ r.ferr >= tol THEN {"fiterror"} ELSE {}
    [] c = "flags" -> IF Has(r, "FLAGS") THEN { "flag " \o f : f \in r.flags } ELSE {}
    [] c = "bounds" -> { Params[i] : i \in { j \in 1..6 : Has(r, Params[j] \o "_STATIC") /\
                           LET d == ((Hi[j] - Lo[j]) \div 10000) * tol IN r.par[j] < Lo[j] + d \/ r.par[j] >= Hi[j] - d } }
    [] c = "offsets" -> IF Has(r, "DEVICE_LOC") /\ \E j \in 1..2 : Has(r, Params[4 + j] \o "_STATIC") /\ r.off[j] >= tol THEN {"offsets"} ELSE {}
    [] c = "arms" -> IF \E j \in 1..2 : Has(r, Params[j] \o "_STATIC") /\
                           (r.par[j] - 30000 >= tol \/ 30000 - r.par[j] > tol) THEN {"arms"} ELSE {}
    [] OTHER -> {}

\* s: at, k (check), tol, kept (rows before check k), why (reasons of every
\* row so far), com (answers), ord (order in which duplicated positioners are
\* asked about; not fixed)
Rows(T) == DOMAIN T
FailsHere(T, s, i) == Reasons(T[i], Checks[s.k], s.tol)
After(T, opt, s) ==      \* the table once check k is accepted
  IF Checks[s.k] = "unique" THEN s
  ELSE [s EXCEPT !.why = [i \in Rows(T) |-> s.why[i] \union (IF i \in s.kept THEN FailsHere(T, s, i) ELSE {})],
                 !.kept = IF opt.enabling THEN s.kept ELSE { i \in s.kept : FailsHere(T, s, i) = {} }]
Dups(T, kept) == { T[i].id : i \in { j \in kept : \E m \in kept : m # j /\ T[m].id = T[j].id } }
Enter(T, s, k) ==        \* come to check k, or to the commits
  IF k > Len(Checks) THEN [s EXCEPT !.at = "commit", !.k = k]
  ELSE LET c == Checks[k] IN
       [s EXCEPT !.k = k, !.tol = IF c \in Adjustable THEN DefaultTol[c] ELSE 0,
                 !.at = IF c = "unique" /\ Dups(T, s.kept) # {} THEN "dup" ELSE IF c \in Adjustable THEN "ask" ELSE "ack"]
\* a row with a missing required value goes before any check
Begin(T, opt) ==
  LET lost == { i \in Rows(T) : T[i].miss # {} }
      s == [at |-> "confirm", k |-> 0, tol |-> 0, kept |-> IF opt.enabling THEN Rows(T) ELSE Rows(T) \ lost,
            why |-> [i \in Rows(T) |-> IF i \in lost THEN {"missing"} ELSE {}], com |-> <<>>, ord |-> <<>>]
  IN IF opt.enabling THEN s ELSE Enter(T, s, 1)
\* rows of one positioner, in order
Options(T, kept, id) == SetToSortSeq({ i \in kept : T[i].id = id }, <)
\* all duplicated positioners are asked about in turn; the order is not fixed
Step(T, opt, s, in) ==
  CASE s.at = "confirm" -> IF in.w = "yes" THEN Enter(T, s, 1) ELSE IF in.w = "exit" THEN [s EXCEPT !.at = "exit"] ELSE s
    [] s.at = "ask" -> CASE in.w = "yes" -> [s EXCEPT !.at = "value"]
                         [] in.w = "no" -> Enter(T, After(T, opt, s), s.k + 1)
                         [] in.w = "exit" -> [s EXCEPT !.at = "exit"]
                         [] OTHER -> s
    [] s.at = "value" -> LET v == IF in.w = "int" THEN 10000 * in.v ELSE in.v IN
                         CASE in.w = "blank" -> Enter(T, After(T, opt, s), s.k + 1)
                           [] in.w = "exit" -> [s EXCEPT !.at = "exit"]
                           [] in.w \in {"int", "num"} -> IF v = s.tol THEN Enter(T, After(T, opt, s), s.k + 1)
                                                        ELSE [s EXCEPT !.at = "ask", !.tol = v]
                           [] OTHER -> s
    [] s.at = "dup" -> LET id == IF s.ord = <<>> THEN CHOOSE x \in Dups(T, s.kept) : TRUE
                                 ELSE s.ord[CHOOSE j \in DOMAIN s.ord : s.ord[j] \in Dups(T, s.kept) /\ \A m \in 1..(j - 1) : s.ord[m] \notin Dups(T, s.kept)]
                           o == Options(T, s.kept, id)
                           rest(S) == [s EXCEPT !.kept = S, !.at = IF Dups(T, S) = {} THEN "ack" ELSE "dup"]
                       IN IF in.w = "skip" THEN rest(s.kept \ { o[i] : i \in DOMAIN o })
                          ELSE IF in.w = "int" /\ in.v + 1 \in DOMAIN o THEN rest(s.kept \ { o[i] : i \in DOMAIN o \ {in.v + 1} })
                          ELSE s
    [] s.at = "ack" -> Enter(T, After(T, opt, s), s.k + 1)
    [] s.at = "commit" -> LET s2 == CASE in.w = "yes" -> [s EXCEPT !.com = Append(s.com, TRUE)]
                                     [] in.w = "no" -> [s EXCEPT !.com = Append(s.com, FALSE)]
                                     [] in.w = "exit" -> [s EXCEPT !.at = "exit"]
                                     [] OTHER -> s
                          IN IF Len(s2.com) = Len(Commits) THEN [s2 EXCEPT !.at = "end"] ELSE s2
    [] OTHER -> s
Marked(opt, s) == IF opt.enabling THEN { i \in s.kept : s.why[i] # {} } ELSE {}
\* is parameter k of row i to be committed
Committed(opt, s, i, k) == s.com[k] /\ (k = Len(Commits) \/ i \notin Marked(opt, s))
=============================================================================
