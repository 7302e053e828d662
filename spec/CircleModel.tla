------------------------------ MODULE CircleModel ------------------------------
(***************************************************************************)
(* Rejection of outliers one at a time.  kept: the points still used, in   *)
(* order, TRUE for outliers.  Every point i with its two successors at     *)
(* distances Step and 2*Step gives one estimate of the centre, exact if    *)
(* the three are distinct points of the circle.  The median is exact as    *)
(* long as more than half of the estimates are; then the point furthest    *)
(* from the circle is an outlier if there is one.  Otherwise anything can  *)
(* be rejected, or nothing.                                                *)
(***************************************************************************)
EXTENDS Circle, TLC, Json
CONSTANTS MaxN, MaxK, Flaw
VARIABLES n, out, kept, gone, pc
vars == <<n, out, kept, gone, pc>>
Half(m) == IF Flaw = "nostep" THEN m \div 2 - 1
           ELSE IF Flaw = "opposite" THEN m \div 2
           ELSE IF m \div 2 - 1 > 1 THEN m \div 2 - 1 ELSE 1
Init ==
  /\ n \in 3..MaxN
  /\ out \in { O \in SUBSET (1..n) : Cardinality(O) <= MaxK }
  /\ kept = [i \in 1..n |-> i] /\ gone = {} /\ pc = "go"
Triplet(m, i) == { ((i + j * Half(m) - 1) % m) + 1 : j \in 0..2 }
Exact(m, i) == LET t == Triplet(m, i) IN Cardinality(t) = 3 /\ \A j \in t : kept[j] \notin out
Good == Cardinality({ i \in DOMAIN kept : Exact(Len(kept), i) })
Without(s, j) == [i \in 1..(Len(s) - 1) |-> IF i < j THEN s[i] ELSE s[i + 1]]
Reliable == IF Flaw = "mean" THEN Good = Len(kept) ELSE 2 * Good > Len(kept)
Stop(w) == pc' = w /\ UNCHANGED <<n, out, kept, gone>>
Reject(j) == IF Len(kept) - 1 < 3 THEN Stop("none") ELSE kept' = Without(kept, j) /\ gone' = gone \union {kept[j]} /\ UNCHANGED <<n, out, pc>>
Next ==
  /\ pc = "go"
  /\ LET bad == { j \in DOMAIN kept : kept[j] \in out } IN
     IF Reliable
     THEN IF bad = {} THEN Stop("done") ELSE \E j \in bad : Reject(j)
     ELSE Stop("done") \/ \E j \in DOMAIN kept : Reject(j)
GoodStay == Guaranteed(n, Cardinality(out)) => gone \subseteq out
AllFound == Guaranteed(n, Cardinality(out)) /\ pc # "go" => pc = "done" /\ gone = out
EnoughLeft == Len(kept) >= 3
EmitInv == IF pc = "go" /\ gone = {} /\ Flaw = "none" /\ Guaranteed(n, Cardinality(out)) THEN PrintT("@@CASE " \o ToJson([n |-> n, out |-> [i \in 1..n |-> i \in out]])) ELSE TRUE
===============================================================================
