---------------------------- MODULE TargetModel -----------------------------
(***************************************************************************)
(* Design model of target resolution, as the step-by-step procedure the    *)
(* positioner code follows: primary configuration, wrap into the travel    *)
(* ranges, then, if a guess is given, the mirrored configuration, the      *)
(* +/-360 deg alternatives, and the selection.  Equal arms and whole       *)
(* degrees, so that every configuration is exact.  TLC checks that the     *)
(* procedure satisfies TargetReq on the whole lattice; every finished      *)
(* behaviour is printed as a case to replay on the code.                   *)
(***************************************************************************)
EXTENDS TargetReq, Sequences, TLC, Json

CONSTANTS TStep, PStep,      \* lattice steps, degrees
          RangeSets,         \* "a" \/ "b" ... which ranges to explore
          GuessStep

R == 3000
AllRanges == <<
  [tlo |-> -180000, thi |-> 180000, plo |-> -20000, phi |-> 200000],   \* default
  [tlo |-> -200000, thi |-> 200000, plo |-> -20000, phi |-> 200000],   \* overlapping travel
  [tlo |-> -185500, thi |-> 190500, plo |-> 0,      phi |-> 180000],
  [tlo |-> -95500,  thi |-> 70500,  plo |-> -5500,  phi |-> 185500],   \* restricted theta
  [tlo |-> 10500,   thi |-> 370500, plo |-> -190500, phi |-> 29500],   \* shifted phi
  [tlo |-> -400500, thi |-> 300500, plo |-> 20500,  phi |-> 160500] >> \* wide theta

None == <<>>

VARIABLES pc, q, opts, best

vars == <<pc, q, opts, best>>

Targets == { <<t * 1000, p * 1000>> : t \in { k * TStep : k \in 0..((360 \div TStep) - 1) },
                                      p \in { k * PStep : k \in 1..((180 \div PStep) - 1) } }
Guesses == { None } \union { <<g * 1000 + 7000>> : g \in { k * GuessStep - 200 : k \in 0..(400 \div GuessStep) } }

Request(tp, i, g, tol) ==
  [kind |-> "in", T0 |-> tp[1] - Half, P0 |-> tp[2],
   x |-> FwdX(tp[1] - Half, tp[2], R, R), y |-> FwdY(tp[1] - Half, tp[2], R, R),
   r1 |-> R, r2 |-> R, ang |-> tp[1] - Half + tp[2] \div 2, outer |-> FALSE,
   rg |-> AllRanges[i], guess |-> g, tol |-> tol]

\* ---- the procedure
WrapInto(a, lo, hi) ==
  IF a < lo THEN LET n == a + ((hi - a) \div Turn) * Turn IN
                   IF n < lo THEN [v |-> lo, fail |-> TRUE] ELSE [v |-> n, fail |-> FALSE]
  ELSE IF a > hi THEN LET n == a - ((a - lo) \div Turn) * Turn IN
                   IF n > hi THEN [v |-> hi, fail |-> TRUE] ELSE [v |-> n, fail |-> FALSE]
  ELSE [v |-> a, fail |-> FALSE]

Option(T, P) ==
  LET t == WrapInto(T, q.rg.tlo, q.rg.thi)
      p == WrapInto(P, q.rg.plo, q.rg.phi) IN
    [T |-> t.v, P |-> p.v, fail |-> t.fail \/ p.fail]

Init ==
  /\ pc = "primary"
  /\ q \in { Request(tp, i, g, tol) : tp \in Targets, i \in RangeSets, g \in Guesses, tol \in {30000, 8000} }
  /\ (q.guess = None => q.tol = 30000)
  /\ opts = <<>>
  /\ best = [T |-> 0, P |-> 0, fail |-> FALSE]

Primary ==
  /\ pc = "primary"
  /\ LET o == Option(q.T0, q.P0) IN
       /\ opts' = <<o>>
       /\ best' = o
  /\ pc' = IF q.guess = None THEN "done" ELSE "mirror"
  /\ UNCHANGED q

Mirror ==
  /\ pc = "mirror"
  /\ opts' = Append(opts, Option(MirrorT(q.T0, q.ang), MirrorP(q.P0)))
  /\ pc' = "rotate"
  /\ UNCHANGED <<q, best>>

Rotate ==
  /\ pc = "rotate"
  /\ LET extra(i) == IF opts[i].fail THEN <<>>
                     ELSE << Option(opts[i].T - Turn, opts[i].P), Option(opts[i].T + Turn, opts[i].P) >>
     IN opts' = opts \o extra(1) \o extra(2)
  /\ pc' = "select"
  /\ UNCHANGED <<q, best>>

Closeness(o) == Abs(o.T - Guess(q))
CloseFail(o) == Closeness(o) > q.tol
Worse(a, b) ==    \* a is worse than b
  \/ a.fail /\ ~b.fail
  \/ a.fail = b.fail /\ CloseFail(a) /\ ~CloseFail(b)
  \/ a.fail = b.fail /\ CloseFail(a) = CloseFail(b) /\ Closeness(a) > Closeness(b)

Select ==
  /\ pc = "select"
  /\ LET all == { opts[i] : i \in 1..Len(opts) }
         noneClose == \A o \in all : CloseFail(o)
         noneOk == \A o \in all : o.fail IN
       IF noneClose \/ noneOk THEN UNCHANGED best
       ELSE best' \in { o \in all : ~\E b \in all : Worse(o, b) }
  /\ pc' = "done"
  /\ UNCHANGED <<q, opts>>

Next == Primary \/ Mirror \/ Rotate \/ Select
Spec == Init /\ [][Next]_vars

Answer == [T |-> best.T, P |-> best.P, u |-> best.fail]

\* the property: every clause of TargetReq, in every finished state
Correct == pc = "done" => Broken(q, Answer) = {}
\* non-vacuity witnesses, each must be reached (checked by the harness on the cases)
Emit == pc = "done" =>
  PrintT("@@CASE " \o ToJson([q |-> q, o |-> Answer, n |-> Cardinality(Sure(q))]))
=============================================================================
