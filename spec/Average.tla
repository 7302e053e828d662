-------------------------------- MODULE Average --------------------------------
(***************************************************************************)
(* Pairing of entries of several tables, and corrections derived from the  *)
(* pairs.  A table is a sequence of distinct keys; a contribution is       *)
(* <<table, key>>.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == { s[i] : i \in DOMAIN s }
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
\* all arrangements of all subsets of K
RECURSIVE Arr(_)
Arr(K) == {<<>>} \union UNION { { <<k>> \o s : s \in Arr(K \ {k}) } : k \in K }
\* pairs of positions with equal keys
Pairs(a, b) == { p \in (DOMAIN a) \X (DOMAIN b) : a[p[1]] = b[p[2]] }
InAll(T) == { k \in Range(T[1]) : \A t \in DOMAIN T : k \in Range(T[t]) }
=============================================================================
