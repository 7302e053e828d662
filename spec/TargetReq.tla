----------------------------- MODULE TargetReq ------------------------------
(***************************************************************************)
(* What resolving a target into positioner angles must satisfy, stated on  *)
(* inputs and outputs only.  A request q:                                  *)
(*   kind   "in"   the target is reached by the primary configuration      *)
(*                 (q.T0, q.P0), 0 < P0 < 180 deg                           *)
(*          "edge" same, but P0 is 0 or 180 deg (border of the annulus,    *)
(*                 where the reachable flag is decided by rounding)        *)
(*          "out"  the target lies outside the annulus in direction q.ang  *)
(*   x, y, r1, r2, ang, rg = [tlo, thi, plo, phi], guess = <<>> or <<g>>,  *)
(*   tol                                                                   *)
(* An answer o = [T, P, u].  Slack absorbs the rounding of the projection. *)
(***************************************************************************)
EXTENDS Kinematics

Slack == 3          \* millidegrees
PosTol == 16        \* 1.6 micrometres

InRange(q, o) ==
  /\ o.T >= q.rg.tlo - 1 /\ o.T <= q.rg.thi + 1
  /\ o.P >= q.rg.plo - 1 /\ o.P <= q.rg.phi + 1

OnTarget(q, o) ==
  /\ Abs(FwdX(o.T, o.P, q.r1, q.r2) - q.x) <= PosTol
  /\ Abs(FwdY(o.T, o.P, q.r1, q.r2) - q.y) <= PosTol

IsPrimaryP(P) == (P % Turn) <= Half + 1 \/ (P % Turn) >= Turn - 1

Sure(q)   == AllConfigs(q.T0, q.P0, q.ang, q.rg, -Slack)
SurePrimary(q) == PrimaryConfigs(q.T0, q.P0, q.rg, -Slack)
Guess(q) == q.guess[1]
SureClose(q)  == { c \in Sure(q)  : Abs(c[1] - Guess(q)) <= q.tol - Slack }
\* the guess is far from every theta the two arm configurations can have, in or
\* out of the ranges (out-of-range ones are clamped to the end of the range)
FarGuess(q) ==
  /\ \A t \in {q.rg.tlo, q.rg.thi} : Abs(t - Guess(q)) > q.tol + Slack
  /\ CircDist(Guess(q), q.T0) > q.tol + Slack
  /\ CircDist(Guess(q), MirrorT(q.T0, q.ang)) > q.tol + Slack

\* centre of the annulus border nearest to an outside target
BorderR(q) == IF q.outer THEN q.r1 + q.r2 ELSE Abs(q.r1 - q.r2)
BorderT(q) == IF q.outer \/ q.r1 >= q.r2 THEN q.ang ELSE q.ang + Half
BorderP(q) == IF q.outer THEN 0 ELSE Half

Clauses ==
  {"range", "on-target", "false-unreachable", "primary", "nearest-guess",
   "far-guess", "outside-annulus", "closest-approach"}

Holds(c, q, o) ==
  CASE c = "range" -> InRange(q, o)
    [] c = "on-target" -> o.u \/ OnTarget(q, o)
    [] c = "false-unreachable" ->
         (q.kind = "in" /\ o.u) =>
            IF q.guess = <<>> THEN SurePrimary(q) = {}
            ELSE SureClose(q) = {} /\ SurePrimary(q) = {}
    [] c = "primary" ->
         (q.kind = "in" /\ q.guess = <<>> /\ ~o.u) => IsPrimaryP(o.P)
    [] c = "nearest-guess" ->
         (q.kind = "in" /\ q.guess # <<>> /\ SureClose(q) # {}) =>
            /\ ~o.u
            /\ Abs(o.T - Guess(q)) <= MinOf({ Abs(c2[1] - Guess(q)) : c2 \in SureClose(q) }) + 2 * Slack
    [] c = "far-guess" ->
         (q.kind = "in" /\ q.guess # <<>> /\ SurePrimary(q) # {} /\ FarGuess(q))
            => ~o.u /\ IsPrimaryP(o.P)
    [] c = "outside-annulus" -> q.kind = "out" => o.u
    [] c = "closest-approach" ->
         (/\ q.kind = "out"
          /\ Reps(BorderT(q), q.rg.tlo, q.rg.thi, -Slack) # {}
          /\ Reps(BorderP(q), q.rg.plo, q.rg.phi, -Slack) # {})
         => /\ Abs(FwdX(o.T, o.P, q.r1, q.r2) - RDiv(BorderR(q) * Cos(q.ang), 10000)) <= PosTol
            /\ Abs(FwdY(o.T, o.P, q.r1, q.r2) - RDiv(BorderR(q) * Sin(q.ang), 10000)) <= PosTol

Broken(q, o) == { c \in Clauses : ~Holds(c, q, o) }
=============================================================================
