----------------------------- MODULE MatchModel -----------------------------
(***************************************************************************)
(* Matching two lists: every point of the first list claims one of its     *)
(* nearest points of the second; then every claimed point keeps one of its *)
(* nearest claimants and releases the others. All lists of up to Max1 and  *)
(* Max2 points on a small grid; whatever the choices among ties, the       *)
(* result satisfies MatchReq.                                              *)
(***************************************************************************)
EXTENDS MatchReq, TLC, Json
CONSTANTS Max1, Max2, GX, GY
VARIABLES p, r, claim, todo, stage
vars == <<p, r, claim, todo, stage>>

Grid == { <<x, y>> : x \in 0..GX, y \in 0..GY }
Lists(n) == UNION { [1..k -> Grid] : k \in 0..n }

Init == /\ p \in Lists(Max1) /\ r \in Lists(Max2)
        /\ claim = <<>> /\ todo = {} /\ stage = "claim"

Claim == /\ stage = "claim" /\ Len(claim) < Len(p)
         /\ LET i == Len(claim) + 1 IN
            IF r = <<>> THEN claim' = Append(claim, 0)
            ELSE \E j \in Near(p[i], r) : claim' = Append(claim, j)
         /\ UNCHANGED <<p, r, todo, stage>>
Claimed == /\ stage = "claim" /\ Len(claim) = Len(p)
           /\ stage' = "release"
           /\ todo' = { j \in 1..Len(r) : Cardinality({ i \in 1..Len(p) : claim[i] = j }) > 1 }
           /\ UNCHANGED <<p, r, claim>>
Release == /\ stage = "release" /\ todo # {}
           /\ \E j \in todo :
                LET C == { i \in 1..Len(p) : claim[i] = j }
                    best == { i \in C : \A k \in C : D2(p[i], r[j]) <= D2(p[k], r[j]) }
                IN /\ todo' = todo \ {j}
                   /\ \E w \in best :
                        claim' = [i \in 1..Len(p) |-> IF i \in C /\ i # w THEN 0 ELSE claim[i]]
           /\ UNCHANGED <<p, r, stage>>
Done == stage = "release" /\ todo = {}
Next == Claim \/ Claimed \/ Release

Result == [i \in 1..Len(p) |-> claim[i] - 1]
Dist == [i \in 1..Len(p) |-> IF claim[i] = 0 THEN -1 ELSE D2(p[i], r[claim[i]])]
Holds == Done => MatchFails(p, r, Result, Dist, TRUE) = {}
HoldsKeep == (stage = "claim" /\ Len(claim) = Len(p)) => MatchFails(p, r, Result, Dist, FALSE) = {}
Emit == (stage = "claim" /\ claim = <<>>) => PrintT("@@CASE " \o ToJson(<<p, r>>))
=============================================================================
