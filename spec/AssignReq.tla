----------------------------- MODULE AssignReq ------------------------------
(***************************************************************************)
(* Assigning spots to positioners as a matching in a bipartite graph. An   *)
(* edge <<p, s>> is a spot s within the reach of a positioner p. A         *)
(* matching is a set of edges, no two sharing an end.                      *)
(* The criteria used to judge recorded results of any size (no augmenting  *)
(* path; avoidable edge) are verified against the definitions by brute     *)
(* force over all small graphs in AssignModel.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsMatching(M) == \A e, f \in M : e = f \/ (e[1] # f[1] /\ e[2] # f[2])
PosOf(M) == { e[1] : e \in M }
SpotsOf(M) == { e[2] : e \in M }

\* positioners at the end of an alternating path from the spots S
RECURSIVE Clo(_, _, _, _)
Clo(E, M, S, R) ==
  LET new == { e[1] : e \in { f \in E : f[2] \in S } } \ R
      mates == { e[2] : e \in { f \in M : f[1] \in new } }
  IN IF new = {} THEN R ELSE Clo(E, M, mates, R \union new)

\* no augmenting path
IsMaximum(E, M, P, S) ==
  Clo(E, M, S \ SpotsOf(M), {}) \intersect (P \ PosOf(M)) = {}
\* another maximum matching does without the edge e of the maximum matching M
Avoidable(E, M, P, S, e) ==
  Clo(E \ {e}, M \ {e}, (S \ SpotsOf(M)) \union {e[2]}, {}) \intersect ({e[1]} \union (P \ PosOf(M))) # {}

---------------------------------------------------------------------------
\* a recorded result: edges E of the graph; M the assignment; score, number of
\* assignments reported; alts: set of alternatives; poss: possible spots of each
\* positioner
AssignFails(E, P, S, M, score, alts, poss) ==
  (IF ~IsMatching(M) THEN {"not-one-to-one"} ELSE {})
  \union (IF ~(M \subseteq E) THEN {"out-of-reach"} ELSE {})
  \union (IF IsMatching(M) /\ M \subseteq E /\ ~IsMaximum(E, M, P, S) THEN {"not-as-many-as-possible"} ELSE {})
  \union (IF score # Cardinality(M) THEN {"wrong-number-of-assignments"} ELSE {})
  \union (IF \E A \in alts : ~IsMatching(A) \/ ~(A \subseteq E) THEN {"impossible-alternative"} ELSE {})
  \union (IF \E A \in alts : Cardinality(A) # Cardinality(M) THEN {"alternative-not-as-good"} ELSE {})
  \union (IF \E e \in M \intersect E : Avoidable(E, M, P, S, e) /\ \A A \in alts : e \in A THEN {"ambiguity-not-reported"} ELSE {})
  \union (IF \E e \in M \intersect E : ~Avoidable(E, M, P, S, e) /\ \E A \in alts : e \notin A THEN {"false-ambiguity"} ELSE {})
  \union (IF poss # UNION ({M} \union alts) THEN {"wrong-possible-assignments"} ELSE {})
=============================================================================
