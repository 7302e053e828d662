----------------------------- MODULE ExportTrace -----------------------------
(***************************************************************************)
(* Recorded exports. e.moves, e.calibs, e.opt as in Export (sets as        *)
(* sequences); moves also [mv (values), xy (expected coordinates with each *)
(* calibration: <<[c, v]>>)], calibrations [cv (values)].                  *)
(* e.prog "moves": e.out = <<[pos, rows]>>, rows [t, mv, cv, cal, loc,     *)
(* rehome]; e.prog "coords" (e.at: <<exp, iter>> or <<>> for the most      *)
(* recent): one table of rows, with xy.                                    *)
(***************************************************************************)
EXTENDS Export, TraceCheck
SetOf(q) == { q[i] : i \in DOMAIN q }
EFails(e) ==
  LET D == SetOf(e.moves) C == SetOf(e.calibs)
      o == [e.opt EXCEPT !.exps = SetOf(@), !.iters = SetOf(@), !.petals = SetOf(@), !.only = SetOf(@), !.rehome = SetOf(@)]
      newest(p) == MaxOf({ m.t : m \in { x \in D : x.petal = p } })
      Due(p) == IF e.prog = "moves" THEN (IF p \in Wanted(D, o) THEN Exported(D, C, o, p) ELSE {})
                ELSE { m \in D : m.pos = p /\ (o.petals = {} \/ m.petal \in o.petals)
                          /\ IF e.at = <<>> THEN m.t = newest(m.petal) ELSE m.exp = e.at[1] /\ m.iter = e.at[2] }
      all == { m.pos : m \in D }
      withcal == e.prog = "coords" \/ Opts(o).calib
      Of(p, t) == CHOOSE m \in D : m.pos = p /\ m.t = t
      Known(p, t) == \E m \in D : m.pos = p /\ m.t = t
      CalVals(i) == IF i = None THEN [k \in 1..e.ncv |-> -999] ELSE Cal(C, i).cv
  IN IF \A p \in all : Due(p) = {} THEN (IF \E j \in DOMAIN e.out : e.out[j].rows # <<>> THEN {"rows-not-asked-for"} ELSE {})
     ELSE IF e.rc # "zero" THEN {"export-failed"}
     ELSE (IF \E j, k \in DOMAIN e.out : j # k /\ e.out[j].pos = e.out[k].pos THEN {"positioner-twice"} ELSE {})
     \union (IF \E p \in all : \E m \in Due(p) : ~\E j \in DOMAIN e.out : e.out[j].pos = p /\ \E k \in DOMAIN e.out[j].rows : e.out[j].rows[k].t = m.t THEN {"rows-lost"} ELSE {})
     \union UNION { UNION { LET r == e.out[j].rows[k] p == e.out[j].pos IN
            IF ~Known(p, r.t) \/ Of(p, r.t) \notin Due(p) THEN {"rows-not-asked-for"}
            ELSE LET m == Of(p, r.t) c == InForce(C, m) IN
              (IF \E i \in DOMAIN e.out[j].rows : i < k /\ e.out[j].rows[i].t = r.t THEN {"row-twice"} ELSE {})
              \union (IF r.mv # m.mv THEN {"values-changed"} ELSE {})
              \union (IF withcal /\ r.cv # CalVals(c) THEN {"wrong-calibration"} ELSE {})
              \union (IF r.loc # PetalLoc(m.petal) THEN {"wrong-petal"} ELSE {})
              \union (IF e.prog = "moves" /\ r.rehome # (IF m.exp \in Opts(o).rehome THEN 1 ELSE 0) THEN {"wrong-rehome"} ELSE {})
              \union (IF e.prog = "coords" /\ \A x \in SetOf(m.xy) : ~(x.c = c /\ \A i \in 1..2 : x.v[i] - r.xy[i] \in -2..2) THEN {"wrong-expected-position"} ELSE {})
         : k \in DOMAIN e.out[j].rows } : j \in DOMAIN e.out }
=============================================================================
