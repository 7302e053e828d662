------------------------------ MODULE MergeTrace ------------------------------
(***************************************************************************)
(* Recorded merges: e.files as in Merge (sets as sequences; each row also  *)
(* with its other values, vals), e.met: <<[dev, loc]>>, e.check, e.metro,  *)
(* e.rc "zero" / "error", e.file: table written, e.out: its rows           *)
(* [f, i, dev, loc, vals].                                                 *)
(***************************************************************************)
EXTENDS Merge, TraceCheck
SetOf(q) == { q[i] : i \in DOMAIN q }
MFails(e) ==
  LET F == [n \in DOMAIN e.files |-> [cols |-> SetOf(e.files[n].cols),
              rows |-> [i \in DOMAIN e.files[n].rows |-> [e.files[n].rows[i] EXCEPT !.miss = SetOf(@)]]]]
      M == [d \in { e.met[i].dev : i \in DOMAIN e.met } |-> e.met[CHOOSE i \in DOMAIN e.met : e.met[i].dev = d].loc]
      o == Outcome(F, M, [check |-> e.check, metro |-> e.metro])
  IN CASE o.at = "nothing" -> IF e.file /\ e.out # <<>> THEN {"rows-from-nowhere"} ELSE {}
       [] o.at = "refused" -> (IF e.file THEN {"contradiction-written"} ELSE {}) \union (IF e.rc = "zero" THEN {"contradiction-not-reported"} ELSE {})
       [] OTHER ->
          IF ~e.file THEN {"not-written"}
          ELSE (IF e.rc # "zero" THEN {"error-exit"} ELSE {})
            \union (IF [j \in DOMAIN e.out |-> <<e.out[j].f, e.out[j].i>>] # Lines(F, 1) THEN {"rows"} 
                    ELSE UNION { LET r == F[e.out[j].f].rows[e.out[j].i] w == o.tab[j] IN
                       (IF e.out[j].dev # r.dev \/ e.out[j].vals # r.vals THEN {"values-changed"} ELSE {})
                       \union (IF \E c \in LocCols : e.out[j].loc[c] # w.loc[c] THEN {"location"} ELSE {})
                     : j \in DOMAIN e.out })
=============================================================================
