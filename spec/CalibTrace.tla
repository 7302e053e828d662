------------------------------ MODULE CalibTrace ------------------------------
(***************************************************************************)
(* Recorded calibrations. e.rows: the table in file order; e.sel, e.period,*)
(* e.dw, e.minw: options; e.out = "fit": e.wins is the sequence of result  *)
(* rows [a, b, n, ns, nd, fed] (dates of start and end, number of points,  *)
(* numbers of points in the static and dynamic fit, rows given to the      *)
(* static fit, <<>> when not observed); e.out = "flag": only e.flag.       *)
(***************************************************************************)
EXTENDS CalibReq, TraceCheck
InvalidTable == 8
InvalidFilter == 16
CFails(e) ==
  IF "exc" \in DOMAIN e THEN {"raised"} ELSE
  LET U == Used(e.rows, e.sel)
      sel == { i \in DOMAIN e.rows : Selected(e.rows[i], e.sel) }
  IN IF sel = {} THEN (IF e.out = "flag" /\ e.flag = InvalidTable THEN {} ELSE {"empty-table-not-flagged"})
  ELSE IF Cardinality(U) < e.minw
  THEN (IF e.out = "flag" /\ e.flag = InvalidFilter THEN {} ELSE {"too-few-rows-not-flagged"})
  ELSE IF e.out # "fit" THEN {"enough-rows-but-no-fit"}
  ELSE LET s == DatesOf(e.rows, U)
           W == Windows(s, e.period, e.dw)
           got == e.wins
       IN (IF \E k \in DOMAIN got : ~(\E i \in U : e.rows[i].d = got[k].a) \/ ~(\E i \in U : e.rows[i].d = got[k].b)
           THEN {"window-of-a-row-not-used"} ELSE {})
          \union (IF Len(got) # Len(W) \/ \E k \in DOMAIN got : k \in DOMAIN W /\ (got[k].a # s[W[k][1]] \/ got[k].b # s[W[k][2]])
                  THEN {"other-windows"} ELSE {})
          \union (IF \E k \in DOMAIN got : LET n == Cardinality({ i \in U : got[k].a <= e.rows[i].d /\ e.rows[i].d <= got[k].b })
                                          IN got[k].n # n \/ got[k].ns # n \/ got[k].nd # n - 1
                  THEN {"wrong-number-of-points"} ELSE {})
          \union (IF \E k \in DOMAIN got : got[k].fed # <<>> /\
                       Range2(got[k].fed) # { i \in U : got[k].a <= e.rows[i].d /\ e.rows[i].d <= got[k].b }
                  THEN {"fitted-other-rows"} ELSE {})
          \union (IF \E k \in DOMAIN got : got[k].fed # <<>> /\ \E i \in 1..(Len(got[k].fed) - 1) :
                       e.rows[got[k].fed[i]].d >= e.rows[got[k].fed[i + 1]].d
                  THEN {"fitted-out-of-order"} ELSE {})
=============================================================================
