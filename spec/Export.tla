-------------------------------- MODULE Export --------------------------------
(***************************************************************************)
(* What the database of moves and calibrations says, and what an export    *)
(* of it holds (bin/get_posmoves, bin/get_poscoords).                      *)
(* A move: [id, pos, petal, t, exp, iter, idx, tp, meas, cmd, ctrl]: row   *)
(* number, positioner, petal, time, exposure, iteration, move index of the *)
(* positioner, is it an update of the tracked angles, was it measured,     *)
(* number of the command (0: none), enabled (0/1).                         *)
(* A calibration: [id, pos, t, nonf, intact]: (0/1) nonfunctional, fibre.  *)
(* Options o: [dates (<<lo, hi>>), exps, iters, petals, only (sets;        *)
(* {} for no restriction), movers, calib, tp, rehome, latest, hist].     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
None == 0
Free(S) == S = {}
Opts(o) ==    \* asking for the latest rows overrides other options
  IF o.latest = 0 THEN o
  ELSE [o EXCEPT !.dates = <<0, 2000000000>>, !.exps = {}, !.iters = {}, !.calib = TRUE, !.tp = TRUE, !.rehome = {}, !.hist = FALSE]
InDates(m, o) == o.dates[1] <= m.t /\ m.t <= o.dates[2]
InExposures(m, o) == (Free(o.exps) \/ m.exp \in o.exps) /\ (Free(o.iters) \/ m.iter \in o.iters)
Positioners(D, o) == { m.pos : m \in { x \in D : (Free(o.petals) \/ x.petal \in o.petals) /\ InDates(x, o) /\ InExposures(x, o) } }
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* rows of one positioner that are asked for
Asked(D, o, p) ==
  LET mine == { m \in D : m.pos = p /\ InDates(m, o) }
      hit == { m \in mine : InExposures(m, o) }
      idx == { m.idx : m \in hit }
      \* the exposures themselves, and updates made within them or right after
      rows == IF o.tp /\ hit # {} THEN hit \union { m \in mine : m.tp /\ m.idx >= MinOf(idx) /\ m.idx <= MaxOf(idx) + 1 } ELSE hit
  IN IF o.latest = 0 THEN rows
     ELSE { m \in rows : Cardinality({ x \in rows : x.t > m.t }) < o.latest }
\* the calibration in force: the last one at or before
InForce(C, m) == LET S == { c \in C : c.pos = m.pos /\ c.t <= m.t } IN
                 IF S = {} THEN None ELSE (CHOOSE c \in S : \A d \in S : d.t <= c.t).id
Cal(C, i) == CHOOSE c \in C : c.id = i
EnKey(C, o, m) == <<m.ctrl>> \o (IF ~o.calib THEN <<>> ELSE LET i == InForce(C, m) IN IF i = None THEN <<-1, -1>> ELSE <<Cal(C, i).nonf, Cal(C, i).intact>>)
Changes(C, o, R) == { m \in R : LET before == { x \in R : x.t < m.t } IN
                         before = {} \/ EnKey(C, o, m) # EnKey(C, o, CHOOSE x \in before : \A y \in before : y.t <= x.t) }
Exported(D, C, o0, p) ==
  LET o == Opts(o0) R == Asked(D, o, p)
      H == IF o.hist THEN Changes(C, o, R) ELSE R
  IN IF o.movers /\ \A m \in R : m.cmd = 0 THEN {}
     ELSE IF o.tp \/ o.hist THEN H ELSE { m \in H : m.meas }
Wanted(D, o0) == LET o == Opts(o0) IN { p \in Positioners(D, o) : Free(o.only) \/ p \in o.only }
\* location of a petal on the focal plane
Petals == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
PetalLoc(p) == CASE p = 2 -> 7 [] p = 3 -> 3 [] p = 4 -> 0 [] p = 5 -> 1 [] p = 6 -> 2 [] p = 7 -> 8 [] p = 8 -> 4 [] p = 9 -> 9 [] p = 10 -> 5 [] p = 11 -> 6 [] OTHER -> 0
ASSUME Cardinality({ PetalLoc(p) : p \in 2..11 }) = 10
=============================================================================
