----------------------------- MODULE Kinematics -----------------------------
(***************************************************************************)
(* Two-arm (theta, phi) kinematics of a fibre positioner, in integers:     *)
(* angles in millidegrees, arm lengths in micrometres, positions in tenths *)
(* of a micrometre.                                                        *)
(***************************************************************************)
EXTENDS FixedTrig, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Turn == 360000
Half == 180000

\* forward kinematics: <<x, y>> in tenths of a micrometre
FwdX(T, P, r1, r2) == RDiv(r1 * Cos(T), 10000) + RDiv(r2 * Cos(T + P), 10000)
FwdY(T, P, r1, r2) == RDiv(r1 * Sin(T), 10000) + RDiv(r2 * Sin(T + P), 10000)

\* |a - b| on the circle
CircDist(a, b) == LET d == (a - b) % Turn IN Min2(d, Turn - d)

\* representations of angle a, modulo full turns, lying inside [lo, hi]
\* shrunk (slack < 0) or grown (slack > 0) by slack millidegrees
Reps(a, lo, hi, slack) ==
  { a + k * Turn : k \in { j \in -4..4 : a + j * Turn >= lo - slack /\ a + j * Turn <= hi + slack } }

\* the mirror image of configuration (T, P) across the line from the centre to
\* the target, whose direction is ang
MirrorT(T, ang) == 2 * ang - T
MirrorP(P) == -P

\* all (T, P) configurations that put the fibre on the target of the primary
\* configuration (T0, P0) and lie inside the ranges
PrimaryConfigs(T0, P0, rg, slack) ==
  Reps(T0, rg.tlo, rg.thi, slack) \X Reps(P0, rg.plo, rg.phi, slack)
MirrorConfigs(T0, P0, ang, rg, slack) ==
  Reps(MirrorT(T0, ang), rg.tlo, rg.thi, slack) \X Reps(MirrorP(P0), rg.plo, rg.phi, slack)
AllConfigs(T0, P0, ang, rg, slack) ==
  PrimaryConfigs(T0, P0, rg, slack) \union MirrorConfigs(T0, P0, ang, rg, slack)
=============================================================================
