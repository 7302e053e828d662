---------------------------- MODULE AssignModel -----------------------------
(***************************************************************************)
(* The search of match_positioners on every reach graph between a few      *)
(* positioners and spots: solve (any maximum matching may come out), then  *)
(* for every edge of the solution solve without it and keep the result if  *)
(* it is as good. Invariants: the requirement; and that the criteria used  *)
(* on recorded results agree with their definitions.                       *)
(***************************************************************************)
EXTENDS AssignReq, Json
CONSTANTS NP, NS
VARIABLES graph, M, todo, alts, pc

P == 1..NP
S == 1..NS
Graphs == SUBSET (P \X S)
Matchings(E) == { N \in SUBSET E : IsMatching(N) }
Size(E) == CHOOSE n \in 0..NP : (\E N \in Matchings(E) : Cardinality(N) = n) /\ (\A N \in Matchings(E) : Cardinality(N) <= n)
Best(E) == LET n == Size(E) IN { N \in Matchings(E) : Cardinality(N) = n }

Init == graph \in Graphs /\ M = {} /\ todo = {} /\ alts = {} /\ pc = "solve"
Solve == pc = "solve" /\ \E N \in Best(graph) : M' = N /\ todo' = N /\ pc' = "alternatives" /\ UNCHANGED <<graph, alts>>
Alternative == /\ pc = "alternatives" /\ todo # {}
               /\ LET e == CHOOSE f \in todo : TRUE IN
                    /\ todo' = todo \ {e}
                    /\ \E N \in Best(graph \ {e}) : alts' = IF Cardinality(N) = Cardinality(M) THEN alts \union {N} ELSE alts
               /\ UNCHANGED <<graph, M, pc>>
Done == pc = "alternatives" /\ todo = {} /\ pc' = "done" /\ UNCHANGED <<graph, M, todo, alts>>
Next == Solve \/ Alternative \/ Done

Requirement == pc = "done" => AssignFails(graph, P, S, M, Cardinality(M), alts, UNION ({M} \union alts)) = {}
CriteriaAgree == pc = "solve" => LET B == Best(graph) IN
   \A N \in Matchings(graph) :
      /\ (N \in B) = IsMaximum(graph, N, P, S)
      /\ N \in B => \A e \in N : (\E K \in B : e \notin K) = Avoidable(graph, N, P, S, e)
Emit == pc = "solve" => PrintT("@@CASE " \o ToJson(graph))
=============================================================================
