------------------------------- MODULE PairModel -------------------------------
(***************************************************************************)
(* Pairing by key: the keys of a are sorted, each key of b is looked up by *)
(* bisection.                                                              *)
(***************************************************************************)
EXTENDS Average, TLC, Json
CONSTANTS NKeys, LenB, Flaw
VARIABLES a, b, got, done
vars == <<a, b, got, done>>
Keys == 1..NKeys
Seqs(m) == UNION { [1..k -> Keys] : k \in 0..m }
Init == a \in Arr(Keys) /\ b \in Seqs(LenB) /\ got = {} /\ done = FALSE
\* positions of a in the order of its keys
Sort(s) == LET RECURSIVE Go(_)
               Go(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : s[i] <= s[j] IN <<m>> \o Go(S \ {m})
           IN Go(DOMAIN s)
Look(s, order, k) == 1 + Cardinality({ i \in DOMAIN order : s[order[i]] < k })
Run ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
  /\ LET order == IF Flaw = "unsorted" THEN [i \in DOMAIN a |-> i] ELSE Sort(a)
         ok(j) == LET p == Look(a, order, b[j]) IN p <= Len(a) /\ (Flaw = "nearest" \/ a[order[p]] = b[j])
     IN got' = { <<order[Look(a, order, b[j])], j>> : j \in { j \in DOMAIN b : ok(j) } }
Next == Run
Right == done => got = Pairs(a, b)
EmitInv == IF done /\ Flaw = "none" THEN PrintT("@@CASE " \o ToJson([a |-> a, b |-> b])) ELSE TRUE
=============================================================================
