------------------------------ MODULE AverageModel ------------------------------
(***************************************************************************)
(* The tables are taken one after the other; rows is where the spots found *)
(* so far are in the first table, col the contributions collected so far,  *)
(* one sequence per table, all cut to the spots still in the running.      *)
(***************************************************************************)
EXTENDS Average, TLC, Json
CONSTANTS NKeys, NTabs, Flaw
VARIABLES T, n, rows, col, out
vars == <<T, n, rows, col, out>>
Keys == 1..NKeys
Sorted(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
Init ==
  /\ T \in [1..NTabs -> Arr(Keys)] /\ Sorted(T[1]) /\ T[1] # <<>>
  /\ n = 1 /\ rows = [i \in DOMAIN T[1] |-> i] /\ col = << [i \in DOMAIN T[1] |-> <<1, T[1][i]>>] >> /\ out = <<>>
Take(s, ii) == [k \in DOMAIN ii |-> s[ii[k]]]
Current == Take(T[1], rows)         \* keys still in the running
RECURSIVE Up(_)
Up(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Up(S \ {m})
Step ==
  /\ n < NTabs /\ n' = n + 1 /\ UNCHANGED <<T, out>>
  /\ LET t == T[n + 1]
         hit == Up({ i \in DOMAIN Current : Current[i] \in Range(t) })
         at(i) == IF Flaw = "order" THEN (IF i \in DOMAIN t THEN i ELSE Len(t)) ELSE CHOOSE j \in DOMAIN t : t[j] = Current[i]
         new == [k \in DOMAIN hit |-> <<n + 1, t[at(hit[k])]>>]
     IN /\ rows' = IF Flaw = "rows" THEN hit ELSE Take(rows, hit)
        /\ col' = Append([m \in DOMAIN col |-> IF Flaw = "uncut" /\ m = 1 THEN SubSeq(col[m], 1, Len(hit)) ELSE Take(col[m], hit)], new)
Finish ==
  /\ n = NTabs /\ out = <<>> /\ UNCHANGED <<T, n, rows, col>>
  /\ out' = [i \in DOMAIN T[1] |-> IF i \in Range(rows) THEN LET k == CHOOSE k \in DOMAIN rows : rows[k] = i IN { col[m][k] : m \in DOMAIN col } ELSE {<<1, T[1][i]>>}]
Next == Step \/ Finish
OwnMean == out # <<>> => \A i \in DOMAIN out :
   out[i] = IF T[1][i] \in InAll(T) THEN { <<t, T[1][i]>> : t \in 1..NTabs } ELSE {<<1, T[1][i]>>}
EmitInv == IF out # <<>> /\ Flaw = "none" THEN PrintT("@@CASE " \o ToJson([T |-> T])) ELSE TRUE
=============================================================================
