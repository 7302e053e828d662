---------------------------- MODULE CalibOutcome ----------------------------
(***************************************************************************)
(* Outcome of the calibration of one positioner as a function of the state *)
(* of its data, and nothing else. Condition c:                             *)
(*   level   "fit" (one call of the fitter) or "table" (one positioner of  *)
(*           fit_posparams)                                                *)
(*   ok      the table is the one of this positioner, with its columns     *)
(*   n       rows that can be used; minw: least number wanted              *)
(*   nre     rows taken after a rehome                                     *)
(*   wins    by window: groups of moves at one phi: <<phi, rows, range of  *)
(*           theta, scatter>> in 1e-3 deg and um                           *)
(*   few     after rejection of outliers fewer points than parameters      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Bit(name) == CASE name = "THETA_STUCK" -> 1 [] name = "PHI_STUCK" -> 2 [] name = "FAILED_FIT" -> 4
               [] name = "INVALID_TABLE" -> 8 [] name = "INVALID_AFTER_FILTER" -> 16
RECURSIVE SumBits(_)
SumBits(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Bit(x) + SumBits(S \ {x})

Testable(g) == g[2] >= 4 /\ g[1] <= 160000 /\ g[3] >= 20000
Moving(g) == g[4] > 100
StuckIn(gs) == LET T == { i \in DOMAIN gs : Testable(gs[i]) } IN
               T # {} /\ \A i \in T : ~Moving(gs[i])
\* one window in which it is stuck spoils the positioner
Stuck(c) == \E w \in DOMAIN c.wins : StuckIn(c.wins[w])
\* <<"flags", names>>, <<"refused", {}>> or <<"params", {}>>
Outcome(c) ==
  IF c.level = "table" /\ c.n = 0 THEN <<"flags", {"INVALID_TABLE"}>>
  ELSE IF c.level = "table" /\ c.nre = 0 THEN <<"refused", {}>>
  ELSE IF c.level = "table" /\ ~c.ok THEN <<"flags", {"INVALID_TABLE"}>>
  ELSE IF c.level = "table" /\ c.n < c.minw THEN <<"flags", {"INVALID_AFTER_FILTER"}>>
  ELSE IF c.level = "table" /\ c.nre < c.n /\ c.nre < 10 THEN <<"flags", {"INVALID_AFTER_FILTER"}>>
  ELSE IF Stuck(c) THEN <<"flags", {"THETA_STUCK", "FAILED_FIT"}>>
  ELSE IF c.nre = 0 \/ c.few THEN <<"flags", {"FAILED_FIT"}>>
  ELSE <<"params", {}>>
=============================================================================
