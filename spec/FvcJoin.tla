------------------------------ MODULE FvcJoin -------------------------------
(***************************************************************************)
(* How FVC2FP.fit gives each spot its metrology row. Spots: a sequence of  *)
(* identities, 0 for a spot that is no pinhole; metrology: a permutation   *)
(* of a superset of the identities. The metrology is cut to the identities *)
(* seen and sorted, then joined back to the spots in the order they appear *)
(* with two argsorts. Invariant: everyone gets the row of its own identity *)
(* and the pairs used in the fit are the identified spots.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NIds, NSpots
VARIABLES spots, metr, pc, sorted, kk

Ids == 1..NIds
\* the ranks of a sequence of distinct integers, and the order that sorts it
Rank(s) == [i \in DOMAIN s |-> Cardinality({ j \in DOMAIN s : s[j] < s[i] }) + 1]
ArgSort(s) == [k \in DOMAIN s |-> CHOOSE i \in DOMAIN s : Rank(s)[i] = k]
Pick(s, idx) == [k \in DOMAIN idx |-> s[idx[k]]]
Perms(S) == { f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j }
SpotLists == { s \in [1..NSpots -> 0..NIds] : \A i, j \in 1..NSpots : s[i] = s[j] /\ s[i] # 0 => i = j }
Identified(s) == SelectSeq(s, LAMBDA v : v # 0)

Init == spots \in SpotLists /\ metr \in Perms(Ids) /\ pc = "cut" /\ sorted = <<>> /\ kk = <<>>
Cut == /\ pc = "cut"
       /\ LET keep == SelectSeq(metr, LAMBDA v : \E i \in DOMAIN spots : spots[i] = v)
          IN sorted' = Pick(keep, ArgSort(keep))
       /\ pc' = "join" /\ UNCHANGED <<spots, metr, kk>>
Join == /\ pc = "join"
        /\ LET f == Identified(spots)
               ii == ArgSort(ArgSort(f))
               jj == ArgSort(sorted)
           IN kk' = Pick(jj, ii)
        /\ pc' = "done" /\ UNCHANGED <<spots, metr, sorted>>
Next == Cut \/ Join
OwnRow == pc = "done" =>
   LET f == Identified(spots) IN
   /\ Len(kk) = Len(f)
   /\ \A i \in DOMAIN f : sorted[kk[i]] = f[i]
   /\ Pick(f, ArgSort(f)) = sorted           \* the pairs of the fit
Emit == (pc = "cut" /\ Len(Identified(spots)) >= 3) => PrintT("@@CASE " \o ToJson([spots |-> spots, metr |-> metr]))
=============================================================================
