------------------------------ MODULE TriModel ------------------------------
(***************************************************************************)
(* Matching lists through their triangles. Points 1..N of the second list; *)
(* list one has points 1..N1 in pattern (point i is the image of point i)  *)
(* and Spur spurious points N1+1.. of its own. Triangles are taken by      *)
(* increasing distance: triangles of true points (distance 0) in any       *)
(* order, each matched to its own image (general position), then triangles *)
(* with a spurious point, each matched to any triangle of list two in any  *)
(* vertex order. A triangle is skipped when it contradicts what is already *)
(* matched; at the end points sharing an image are released.               *)
(* Second role: emits small integer patterns to replay.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N1, N, Spur, EmitCases
VARIABLES idx, left, stage

P1 == 1..(N1 + Spur)
Tri(S) == { T \in SUBSET S : Cardinality(T) = 3 }
True(T) == T \subseteq 1..N1
Images(T) == IF True(T) THEN { [x \in T |-> x] }
             ELSE { f \in [T -> 1..N] : Cardinality({ f[x] : x \in T }) = 3 }

Init == /\ idx = [i \in P1 |-> 0] /\ left = Tri(P1) /\ stage = "match"
AllMatched == \A i \in P1 : idx[i] # 0
Take == /\ stage = "match" /\ ~AllMatched
        /\ \E T \in left :
             /\ (\E U \in left : True(U)) => True(T)
             /\ left' = left \ {T}
             /\ \E f \in Images(T) :
                  IF \E x \in T : idx[x] # 0 /\ idx[x] # f[x] THEN UNCHANGED idx
                  ELSE idx' = [i \in P1 |-> IF i \in T THEN f[i] ELSE idx[i]]
        /\ UNCHANGED stage
End == /\ stage = "match" /\ (AllMatched \/ left = {})
       /\ idx' = [i \in P1 |-> IF \E k \in P1 \ {i} : idx[k] = idx[i] THEN 0 ELSE idx[i]]
       /\ stage' = "done" /\ UNCHANGED left
Next == Take \/ End

TrueOrNone == stage = "done" => \A i \in 1..N1 : IF Spur = 0 THEN idx[i] = i ELSE idx[i] \in {0, i}
OneToOne == stage = "done" => \A i, k \in P1 : i # k => idx[i] = 0 \/ idx[i] # idx[k]

\* small patterns: distinct abscissae, any ordinates, one more point
Patterns == { [i \in 1..4 |-> <<2 * i, y[i]>>] : y \in [1..4 -> 0..4] }
Extra == { <<>>, <<1, 1>>, <<5, 3>>, <<9, 0>> }
ASSUME EmitCases => \A q \in Patterns : \A x \in Extra : PrintT("@@CASE " \o ToJson(<<q, x>>))
=============================================================================
