----------------------------- MODULE ExportModel -----------------------------
(***************************************************************************)
(* Histories of the instrument: positioners move in exposures (measured or *)
(* not), their tracked angles are updated, they are calibrated, enabled    *)
(* and disabled. force is the calibration each positioner works with; ids  *)
(* of moves with it are kept in truth. Then any export.                    *)
(* ByTime FALSE: records of calibrations are compared by the strict order  *)
(* of times (must break JoinedRight, as a calibration and a move may be    *)
(* recorded at the same time).                                            *)
(***************************************************************************)
EXTENDS Export, Json
CONSTANTS MaxEvents, ByTime
VARIABLES D, C, now, exp, force, ctrl, truth, n, busy
Pos == {"P", "Q"}
PetalOf == [P |-> 4, Q |-> 7]
Idx(p) == Cardinality({ m \in D : m.pos = p })
Init == /\ D = {} /\ C = {} /\ now = 10 /\ exp = <<1, 0>> /\ force = [p \in Pos |-> None] /\ ctrl = [p \in Pos |-> 1] /\ truth = {} /\ n = 0 /\ busy = {}
Tick == n' = n + 1 /\ n < MaxEvents
Move(p, tp, meas) ==
  /\ Tick /\ p \notin busy
  /\ LET m == [id |-> n + 1, pos |-> p, petal |-> PetalOf[p], t |-> now, exp |-> exp[1], iter |-> exp[2], idx |-> Idx(p), tp |-> tp, meas |-> meas,
               cmd |-> IF tp THEN 0 ELSE 1, ctrl |-> ctrl[p]]
     IN D' = D \union {m} /\ truth' = truth \union {<<m.id, force[p]>>}
  /\ busy' = busy \union {p}
  /\ UNCHANGED <<C, now, exp, force, ctrl>>
\* a calibration is recorded before a move at the same time
Calibrate(p, nonf) ==
  /\ Tick /\ p \notin busy /\ ~\E c \in C : c.pos = p /\ c.t = now
  /\ C' = C \union {[id |-> n + 1, pos |-> p, t |-> now, nonf |-> nonf, intact |-> 1]}
  /\ force' = [force EXCEPT ![p] = n + 1]
  /\ UNCHANGED <<D, now, exp, ctrl, truth, busy>>
Pass == /\ Tick /\ busy # {} /\ now' = now + 5 /\ busy' = {}
        /\ exp' \in {exp, <<exp[1], exp[2] + 1>>, <<exp[1] + 1, 0>>}
        /\ UNCHANGED <<D, C, force, ctrl, truth>>
Switch(p) == Tick /\ ctrl' = [ctrl EXCEPT ![p] = 1 - ctrl[p]] /\ UNCHANGED <<D, C, now, exp, force, truth, busy>>
Next == \/ \E p \in Pos : \E tp, meas \in BOOLEAN : Move(p, tp, meas)
        \/ \E p \in Pos : \E f \in {0, 1} : Calibrate(p, f)
        \/ Pass
        \/ \E p \in Pos : Switch(p)
Joined(m) == IF ByTime THEN InForce(C, m) ELSE InForce({ c \in C : c.t # m.t }, m)
JoinedRight == \A m \in D : <<m.id, Joined(m)>> \in truth
Base == [dates |-> <<0, 1000>>, exps |-> {}, iters |-> {}, petals |-> {}, only |-> {}, movers |-> FALSE, calib |-> FALSE, tp |-> FALSE, rehome |-> {}, latest |-> 0, hist |-> FALSE]
Some == { Base, [Base EXCEPT !.tp = TRUE], [Base EXCEPT !.exps = {1}, !.tp = TRUE, !.calib = TRUE], [Base EXCEPT !.exps = {2}, !.iters = {0}],
          [Base EXCEPT !.iters = {0, 1}, !.tp = TRUE], [Base EXCEPT !.latest = 1], [Base EXCEPT !.latest = 2], [Base EXCEPT !.hist = TRUE, !.calib = TRUE],
          [Base EXCEPT !.movers = TRUE], [Base EXCEPT !.dates = <<11, 15>>, !.calib = TRUE] }
\* laws of the export itself
OwnRows == \A o \in Some : \A p \in Pos : \A m \in Exported(D, C, o, p) : m.pos = p /\ m \in D
Everything == \A p \in Pos : Exported(D, C, [Base EXCEPT !.tp = TRUE], p) = { m \in D : m.pos = p }
OnlyMeasured == \A o \in Some : ~Opts(o).tp /\ ~o.hist => \A p \in Pos : \A m \in Exported(D, C, o, p) : m.meas
Widen == \A o \in Some : o.latest = 0 /\ ~o.hist /\ ~o.movers => \A p \in Pos : Exported(D, C, o, p) \subseteq Exported(D, C, [o EXCEPT !.tp = TRUE], p)
LatestAreLatest == \A k \in {1, 2} : \A p \in Pos : LET R == Exported(D, C, [Base EXCEPT !.latest = k], p) mine == { m \in D : m.pos = p } IN
                     Cardinality(R) = (IF Cardinality(mine) < k THEN Cardinality(mine) ELSE k) /\ \A m \in R : \A x \in mine \ R : x.t < m.t
HistoryComplete == LET o == [Base EXCEPT !.hist = TRUE, !.calib = TRUE, !.tp = TRUE] IN
   \A p \in Pos : \A m \in D : m.pos = p =>     \* the state at any move can be read off the last exported row
     \E r \in Exported(D, C, o, p) : r.t <= m.t /\ EnKey(C, o, r) = EnKey(C, o, m)
Emit == n = MaxEvents => PrintT("@@CASE " \o ToJson([moves |-> SetToSeq(D), calibs |-> SetToSeq(C)]))
=============================================================================
