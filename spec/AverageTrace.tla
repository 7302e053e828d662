------------------------------ MODULE AverageTrace ------------------------------
(***************************************************************************)
(* Recorded calls.                                                         *)
(* "pair": e.a, e.b (keys), e.rc, e.pairs <<i, j>>, from one.              *)
(* "near": e.p, e.q points of a grid, e.r2 (radius squared), e.pairs, e.d  *)
(*   distances (1e-6) of the pairs.                                        *)
(* "aver": e.T (sequences of groups), e.rc, e.rows: for every row of the   *)
(*   first table [g (its group), x, y (reported minus its own, 1e-4), mx,  *)
(*   my (mean of its own in all tables minus its own in the first)],       *)
(*   e.others (other columns kept), e.pure (inputs intact).                *)
(* "corr": one step of a history of one correction: e.kind, e.res (fitted  *)
(*   map minus simulated map, 1e-9 of the field), e.back (there and back), *)
(*   e.n, e.nmatch, e.rms, e.rms0 (1e-9), e.unit (deviation of scales from *)
(*   one, 1e-9).                                                           *)
(* "field": e.before, e.after (rms, 1e-4 um: simulated field, what is left)*)
(*   e.noise, e.share (thousandths of the field that may be left), e.moved *)
(*   <<own offset put in, own offset left>> (1e-3 um).                     *)
(* "most": e.found of e.of fields were estimated well, e.part percent      *)
(*   expected (searches with local minima, polynomials at the corners).    *)
(* "still": e.F, e.mask, e.strong (a field near the limit may hide fibers *)
(*   that are still). "same": e.d, e.tol. "solve": rows by location.    *)
(***************************************************************************)
EXTENDS Average, TraceCheck
Abs(x) == IF x < 0 THEN -x ELSE x
SetOf(q) == Range(q)
PairFails(e) ==
  IF ~Distinct(e.a) THEN (IF e.rc = "refused" THEN {} ELSE {"accepts-ambiguous-keys"})
  ELSE IF e.rc # "ok" THEN {"failed"}
  ELSE (IF SetOf(e.pairs) # Pairs(e.a, e.b) THEN {"wrong-pairs"} ELSE {}) \union (IF Distinct(e.pairs) THEN {} ELSE {"pair-twice"})
D2(u, v) == (u[1] - v[1]) * (u[1] - v[1]) + (u[2] - v[2]) * (u[2] - v[2])
NearFails(e) ==
  IF e.rc # "ok" THEN {"failed"}
  ELSE (IF SetOf(e.pairs) # { p \in (DOMAIN e.p) \X (DOMAIN e.q) : D2(e.p[p[1]], e.q[p[2]]) <= e.r2 } THEN {"wrong-pairs"} ELSE {})
    \union (IF Distinct(e.pairs) THEN {} ELSE {"pair-twice"})
    \union (IF \E k \in DOMAIN e.pairs : Abs(e.d[k] - D2(e.p[e.pairs[k][1]], e.q[e.pairs[k][2]]) * 1000) > 1 THEN {"wrong-distance"} ELSE {})
AverFails(e) ==
  LET all == InAll(e.T) IN
  IF e.rc # "ok" THEN (IF all = {} THEN {} ELSE {"failed"})
  ELSE (IF \E i \in DOMAIN e.rows : LET r == e.rows[i] IN r.g \in all /\ ~(Abs(r.x - r.mx) <= e.tol /\ Abs(r.y - r.my) <= e.tol) THEN {"not-the-mean-of-its-own"} ELSE {})
    \union (IF \E i \in DOMAIN e.rows : LET r == e.rows[i] IN r.g \notin all /\ (r.x # 0 \/ r.y # 0) THEN {"unmatched-changed"} ELSE {})
    \union (IF e.others THEN {} ELSE {"other-columns"}) \union (IF e.pure THEN {} ELSE {"inputs-modified"})
    \union (IF Len(e.rows) = e.n THEN {} ELSE {"rows"})
CorrFails(e) ==
  IF e.rc # "ok" THEN {"failed"}
  ELSE (IF e.res <= 100 THEN {} ELSE {"not-recovered"}) \union (IF e.back <= 100 THEN {} ELSE {"inverse"})
    \union (IF e.nmatch = e.n THEN {} ELSE {"count"}) \union (IF Abs(e.rms - e.rms0) <= 100 + e.rms0 \div 100 THEN {} ELSE {"rms"})
    \union (IF e.kind = "solid" /\ e.unit > 0 THEN {"scales-not-one"} ELSE {})
FieldFails(e) ==
  IF e.rc # "ok" THEN {"failed"}
  ELSE (IF e.after <= (e.before * e.share) \div 1000 + 2 * e.noise THEN {} ELSE {"field-left"})
    \union (IF \E m \in SetOf(e.moved) : 2 * Abs(m[2] - m[1]) > Abs(m[1]) THEN {"own-offset-absorbed"} ELSE {})
    \union (IF e.pure THEN {} ELSE {"inputs-modified"})
AFails(e) ==
  CASE e.op = "pair" -> PairFails(e)
    [] e.op = "near" -> NearFails(e)
    [] e.op = "aver" -> AverFails(e)
    [] e.op = "corr" -> CorrFails(e)
    [] e.op = "field" -> FieldFails(e)
    [] e.op = "still" -> IF e.rc # "ok" THEN {"failed"} ELSE IF \A i \in DOMAIN e.F : IF e.F[i] = "still" THEN e.mask[i] \/ e.strong ELSE ~e.mask[i] THEN {} ELSE {"wrong-fibers-used"}
    [] e.op = "solve" -> IF e.rc # "ok" THEN {"failed"} ELSE
         (IF \A i \in DOMAIN e.loc : e.known[i] = (e.loc[i] \in SetOf(e.expected)) THEN {} ELSE {"wrong-rows-corrected"})
         \union (IF e.loc = e.given THEN {} ELSE {"rows-rearranged"}) \union (IF e.sums <= 10 THEN {} ELSE {"new-is-not-old-minus-turbulence"})
    [] e.op = "most" -> IF 100 * e.found >= e.part * e.of THEN {} ELSE {"most-fields-not-found"}
    [] OTHER -> IF \A x \in SetOf(e.d) : Abs(x) <= e.tol THEN {} ELSE {"depends-on-" \o e.how}
=============================================================================
