------------------------------- MODULE StillModel -------------------------------
(***************************************************************************)
(* Choice of the stationary fibers that carry the correction: those        *)
(* without a measurement are left out first, then those far from rest,     *)
(* then those that do not follow their neighbours.  data holds the rows    *)
(* still used, mask says which of the given ones they are.                 *)
(***************************************************************************)
EXTENDS Average, TLC, Json
CONSTANTS N, Flaw
Kinds == {"still", "lost", "far", "apart"}
VARIABLES F, mask, data, pc
vars == <<F, mask, data, pc>>
Init == F \in [1..N -> Kinds] /\ mask = [i \in 1..N |-> TRUE] /\ data = [i \in 1..N |-> i] /\ pc = "lost"
Keep(kind) == SelectSeq(data, LAMBDA i : F[i] # kind)
Cut(kind, next) ==
  /\ pc = kind /\ pc' = next /\ UNCHANGED F
  /\ data' = Keep(kind)
  /\ mask' = LET left == Keep(kind) IN
       IF Flaw = "positions" THEN [i \in 1..N |-> mask[i] /\ (i \in DOMAIN data => F[data[i]] # kind)]
       ELSE IF Flaw = "last" /\ kind = "apart" THEN mask
       ELSE [i \in 1..N |-> i \in Range(left)]
Next == Cut("lost", "far") \/ Cut("far", "apart") \/ Cut("apart", "done")
Consistent == pc = "done" => /\ \A i \in 1..N : mask[i] = (F[i] = "still")
                             /\ Range(data) = { i \in 1..N : mask[i] }
EmitInv == IF pc = "done" /\ Flaw = "none" THEN PrintT("@@CASE " \o ToJson([F |-> F])) ELSE TRUE
=============================================================================
