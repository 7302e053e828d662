---------------------------- MODULE CalibFitTrace ----------------------------
(***************************************************************************)
(* Recorded calibrations of simulated positioners, in histories. e.id      *)
(* names the data, e.c their condition (CalibOutcome), e.out the outcome:  *)
(* "params", "flags" or "refused"; e.flags; e.extra: names of calibration  *)
(* values reported beside flags; e.par and e.truth: values by name         *)
(* (1e-5 mm, 1e-4 deg, 1e-5), e.tol by name; e.fixed: values that were to  *)
(* stay what they were; e.npts: points fitted, e.nexp expected (-1: any);  *)
(* e.rms in 1e-6 mm; e.tables: the module tables are as they were.         *)
(* State: the first result of every data set.                              *)
(***************************************************************************)
EXTENDS CalibOutcome, TraceRuns
AbsF(x) == IF x < 0 THEN -x ELSE x
Turn == 3600000
NearT(a, b, tol) == AbsF(a - b) <= tol \/ AbsF(a - b - Turn) <= tol \/ AbsF(a - b + Turn) <= tol
IsTheta(e, n) == \E i \in DOMAIN e.theta : e.theta[i] = n
FStart(e) == <<>>
Result(e) == <<e.out, e.flags, e.extra, e.par, e.npts>>
FFollow(s, e) == IF "exc" \in DOMAIN e \/ e.id \in DOMAIN s THEN s ELSE (e.id :> Result(e)) @@ s
ClosePar(p, r) == DOMAIN p = DOMAIN r /\ \A n \in DOMAIN p : AbsF(p[n] - r[n]) <= 1
FFails(s, e) ==
  IF "exc" \in DOMAIN e THEN {"raised"} ELSE
  LET o == Outcome(e.c) IN
  (IF e.out # o[1] THEN {"outcome-should-be-" \o o[1]}
   ELSE IF o[1] = "flags" THEN
      (IF e.flags # SumBits(o[2]) THEN {"wrong-flags"} ELSE {})
      \union (IF e.extra # <<>> THEN {"values-beside-flags"} ELSE {})
   ELSE IF o[1] = "params" THEN
      (IF e.flags # 0 THEN {"flagged-without-reason"} ELSE {})
      \union (IF \E n \in DOMAIN e.truth : n \notin DOMAIN e.par THEN {"value-missing"}
              ELSE IF \E n \in DOMAIN e.truth : IF IsTheta(e, n) THEN ~NearT(e.par[n], e.truth[n], e.tol[n]) ELSE AbsF(e.par[n] - e.truth[n]) > e.tol[n]
              THEN {"truth-not-recovered"} ELSE {})
      \union (IF \E n \in DOMAIN e.par : IsTheta(e, n) /\ (e.par[n] > Turn \div 2 + 1 \/ e.par[n] < -(Turn \div 2) - 1) THEN {"theta-not-wrapped"} ELSE {})
      \union (IF \E n \in DOMAIN e.fixed : n \notin DOMAIN e.par \/ e.par[n] # e.fixed[n] THEN {"fixed-value-changed"} ELSE {})
      \union (IF e.nexp >= 0 /\ e.npts # e.nexp THEN {"wrong-number-of-points"} ELSE {})
      \union (IF e.rms > 10000 THEN {"residuals-of-exact-data"} ELSE {})
   ELSE {})
  \union (IF e.tables THEN {} ELSE {"module-tables-changed"})
  \union (IF e.pure THEN {} ELSE {"inputs-changed"})
  \union (IF e.id \in DOMAIN s THEN
            LET r == s[e.id] IN IF r[1] = e.out /\ r[2] = e.flags /\ r[3] = e.extra /\ ClosePar(e.par, r[4]) /\ r[5] = e.npts
                                THEN {} ELSE {"depends-on-history"}
          ELSE {})
=============================================================================
