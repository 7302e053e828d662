------------------------------ MODULE TriTrace ------------------------------
(***************************************************************************)
(* Recorded pattern matches. e.f1, e.f2: the triangles of the two lists,   *)
(* <<i, j, k, shape ratio, cosine at the first vertex, cosine of the first *)
(* side>> with vertices in order of abscissa, features in 1e-4; e.truth:   *)
(* image of each point of list one (-1: spurious). The correspondence is   *)
(* determined when no triangle of list two resembles a triangle of list    *)
(* one more than its own image does.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceCheck
AbsI(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Df(s, t) == Max2(AbsI(s[4] - t[4]), Max2(AbsI(s[5] - t[5]), AbsI(s[6] - t[6])))
Img(e, t) == <<e.truth[t[1] + 1], e.truth[t[2] + 1], e.truth[t[3] + 1]>>
Set3(t) == {t[1], t[2], t[3]}
Determined(e) ==
  /\ \A i \in 1..Len(e.truth) : e.truth[i] >= 0
  /\ \A a \in 1..Len(e.f1) :
       LET s == e.f1[a]
           own == { b \in 1..Len(e.f2) : Set3(e.f2[b]) = Set3(Img(e, s)) }
           b0 == CHOOSE b \in own : TRUE
           d0 == Df(s, e.f2[b0])
       IN /\ own # {}
          \* the vertices correspond in the same order
          /\ \A v \in 1..3 : e.f2[b0][v] = Img(e, s)[v]
          /\ \A b \in 1..Len(e.f2) : b \in own \/ Df(s, e.f2[b]) > 2 * d0 + 4
  /\ Len(e.truth) >= 3

TFails(e) ==
  IF "exc" \in DOMAIN e THEN {"raised"}
  ELSE IF Len(e.idx) # Len(e.truth) THEN {"wrong-length"}
  ELSE
    (IF \E i \in 1..Len(e.idx) : e.idx[i] < -1 \/ e.idx[i] >= e.n2 THEN {"index-out-of-range"} ELSE {})
    \union (IF \E i, k \in 1..Len(e.idx) : i # k /\ e.idx[i] >= 0 /\ e.idx[i] = e.idx[k] THEN {"not-one-to-one"} ELSE {})
    \union (IF (Len(e.idx) < 3 \/ e.n2 < 3) /\ \E i \in 1..Len(e.idx) : e.idx[i] # -1 THEN {"match-from-nothing"} ELSE {})
    \union (IF e.idx # e.truth THEN IF Determined(e) THEN {"wrong-correspondence"} ELSE {} ELSE {})
    \union (IF e.pure THEN {} ELSE {"inputs-modified"})
=============================================================================
