------------------------------ MODULE MatchReq ------------------------------
(***************************************************************************)
(* What matching two point lists in one coordinate system must return.     *)
(* p, r : the two lists, sequences of <<x, y>> integers; idx : for each    *)
(* point of p the index (from 0) in r or -1; d2 : squared distance, -1     *)
(* for infinite; uniq: duplicates are removed.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
MinD2(a, r) == LET RECURSIVE M(_, _)
                   M(k, m) == IF k > Len(r) THEN m
                              ELSE LET d == D2(a, r[k]) IN M(k + 1, IF d < m THEN d ELSE m)
               IN M(2, D2(a, r[1]))
Near(a, r) == LET m == MinD2(a, r) IN { j \in 1..Len(r) : D2(a, r[j]) = m }

MatchFails(p, r, idx, d2, uniq) ==
  IF Len(idx) # Len(p) \/ Len(d2) # Len(p) THEN {"wrong-length"}
  ELSE IF \E i \in 1..Len(p) : idx[i] < -1 \/ idx[i] >= Len(r) THEN {"index-out-of-range"}
  ELSE IF Len(r) = 0 THEN IF \A i \in 1..Len(p) : d2[i] = -1 THEN {} ELSE {"wrong-distance"}
  ELSE
  LET I == 1..Len(p)
      near == [i \in I |-> Near(p[i], r)]
      m == [i \in I |-> idx[i] + 1]
      dm == [i \in I |-> IF near[i] = {} THEN 0 ELSE MinD2(p[i], r)]
      matched == { i \in I : idx[i] >= 0 }
      \* the matched point holding j (if any)
      holders == [j \in 1..Len(r) |-> { i \in matched : m[i] = j }]
  IN (IF \E i \in matched : m[i] \notin near[i] THEN {"not-the-nearest"} ELSE {})
     \union (IF \E i \in I : d2[i] # (IF i \in matched THEN D2(p[i], r[m[i]]) ELSE -1) THEN {"wrong-distance"} ELSE {})
     \union (IF ~uniq /\ matched # I THEN {"unmatched"} ELSE {})
     \union (IF uniq /\ \E j \in 1..Len(r) : Cardinality(holders[j]) > 1 THEN {"not-one-to-one"} ELSE {})
     \union (IF uniq /\ \E i \in I \ matched : ~ \E j \in near[i] : \E k \in holders[j] : dm[k] <= dm[i]
             THEN {"unmatched-without-reason"} ELSE {})
     \union (IF uniq /\ \E i \in matched : \E k \in I \ matched : near[k] = {m[i]} /\ dm[k] < dm[i]
             THEN {"nearest-claimant-lost"} ELSE {})
=============================================================================
