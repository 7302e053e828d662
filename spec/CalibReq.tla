------------------------------ MODULE CalibReq ------------------------------
(***************************************************************************)
(* Which rows of a move table take part in the calibration of a positioner *)
(* and in which windows. A row is [d, en, tms, note]: date, control        *)
(* enabled, total number of move sequences so far, keywords of its note.   *)
(* sel is a sequence of alternatives, each a sequence of keywords; <<>>    *)
(* when no selection is asked for.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Range2(s) == { s[i] : i \in DOMAIN s }
Selected(r, sel) == sel = <<>> \/ \E a \in Range2(sel) : Range2(a) \subseteq Range2(r.note)
Eligible(rows, sel) == { i \in DOMAIN rows : Selected(rows[i], sel) /\ rows[i].en }
\* of the rows without a move in between, the first one in time
Used(rows, sel) == LET E == Eligible(rows, sel) IN
  { i \in E : \A j \in E : rows[j].tms = rows[i].tms => rows[i].d <= rows[j].d }
DatesOf(rows, S) == SetToSortSeq({ rows[i].d : i \in S }, <)

Ceil(a, b) == (a + b - 1) \div b
MinI(a, b) == IF a < b THEN a ELSE b
\* windows <<first, last>> (positions from 1 in the dates s)
First(s, t) == CHOOSE k \in 1..Len(s) : s[k] >= t /\ (k = 1 \/ s[k - 1] < t)
Windows(s, period, dw) ==
  LET n == Len(s)
      nd == Ceil(s[n] - s[1], period)
  IN IF nd <= 1
     THEN [ k \in 1..Ceil(n, dw) |-> <<1, MinI(n, k * dw)>> ]
     ELSE LET datum(j) == First(s, s[1] + j * period)          \* j in 0..nd-1
              nw == nd - 1                                       \* interval j: datum j-1 to datum j
              wide(i, J) == datum(J) - datum(i - 1) > dw
              from(J) == IF \E i \in 1..J : wide(i, J)
                         THEN CHOOSE i \in 1..J : wide(i, J) /\ \A k \in (i + 1)..J : ~wide(k, J)
                         ELSE 1
              good == { J \in 1..nw : wide(from(J), J) \/ J = nw }
              all == { <<datum(from(J) - 1), datum(J)>> : J \in good }
          IN SetToSortSeq(all, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
=============================================================================
