------------------------------ MODULE GuideModel ------------------------------
(***************************************************************************)
(* Reading a catalogue, fitting the correction from the instrument to the  *)
(* sky, and updating the pointing, on integer coordinates.                 *)
(* The correction is fitted in two steps as in the code: the mean offset   *)
(* d of sky minus instrument first, then rotation k and offset a of        *)
(* sky = a + k(instrument + d); it is an offset followed by a rotation.    *)
(* WrongOrder: a is added to d as it is. KeepBad: rows without a position  *)
(* are kept. Each must break Recovered.                                    *)
(***************************************************************************)
EXTENDS Guide, TLC, Json
CONSTANTS NRows, WrongOrder, KeepBad, NFits
VARIABLES rows, turn, tel, point, corr, st, nfit
Kinds == { [sep |-> 10, known |-> TRUE, pm |-> "known", cam |-> TRUE, spot |-> TRUE], [sep |-> 10, known |-> TRUE, pm |-> "unknown", cam |-> TRUE, spot |-> TRUE],
           [sep |-> 5000, known |-> TRUE, pm |-> "known", cam |-> TRUE, spot |-> TRUE], [sep |-> 10, known |-> FALSE, pm |-> "known", cam |-> TRUE, spot |-> TRUE],
           [sep |-> 10, known |-> TRUE, pm |-> "known", cam |-> FALSE, spot |-> TRUE], [sep |-> 10, known |-> TRUE, pm |-> "known", cam |-> TRUE, spot |-> FALSE] }
\* places on the instrument
Place(i) == <<2 * ((i * i) % 5) - 3, 2 * i - NRows>>
Good(r) == Matched(r, 2000) /\ Usable(r)
Init == /\ rows \in [1..NRows -> Kinds] /\ turn \in 0..3 /\ tel \in {<<0, 0>>, <<6, -12>>} /\ point \in {<<0, 0>>, <<12, 6>>}
        /\ corr = [k |-> 0, off |-> <<0, 0>>] /\ st = "read" /\ nfit = 0
Fitted == IF KeepBad THEN { i \in 1..NRows : rows[i].sep < 2000 } ELSE Used(rows, Kept(rows, 2000))
\* the sky position of the star of row i; of a row without one, the origin
Star(i) == IF Good(rows[i]) THEN Add(Rot(turn, Place(i)), tel) ELSE IF rows[i].sep < 2000 /\ ~KeepBad THEN Add(Rot(turn, Place(i)), tel) ELSE <<0, 0>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN <<0, 0>> ELSE LET i == CHOOSE x \in S : TRUE IN Add(f[i], Sum(f, S \ {i}))
\* star against the assumed pointing, times the number of stars (to stay in integers)
Fit ==
  /\ st = "read" /\ nfit < NFits
  /\ LET F == Fitted n == Cardinality(F) IN
     IF n < 3 THEN st' = "too few" /\ UNCHANGED <<rows, turn, tel, point, corr, nfit>>
     ELSE LET m == [i \in F |-> <<n * Place(i)[1], n * Place(i)[2]>>]
              s == [i \in F |-> <<n * Sub(Star(i), point)[1], n * Sub(Star(i), point)[2]>>]
              dn == Sum([i \in F |-> Sub(s[i], m[i])], F)
              d == <<dn[1] \div n, dn[2] \div n>>
              \* the rotation and offset that fit exactly, if any
              fits == { k \in 0..3 : \A i, j \in F : Sub(s[i], s[j]) = Rot(k, Sub(m[i], m[j])) }
              k == IF fits = {} THEN 0 ELSE CHOOSE x \in fits : TRUE
              i0 == CHOOSE i \in F : TRUE
              a == Sub(s[i0], Rot(k, Add(m[i0], d)))
              off == IF WrongOrder THEN Add(d, a) ELSE Add(d, Rot(Inv(k), a))
          IN /\ corr' = [k |-> k, off |-> off] /\ st' = (IF fits = {} THEN "inexact" ELSE "fitted") /\ nfit' = nfit + 1
             /\ UNCHANGED <<rows, turn, tel, point>>
\* the pointing of the telescope is moved by the offset on the sky; fitted again
Update == /\ st = "fitted" /\ LET n == Cardinality(Fitted) o == Rot(corr.k, corr.off) IN point' = Add(point, <<o[1] \div n, o[2] \div n>>)
          /\ st' = "read" /\ UNCHANGED <<rows, turn, tel, corr, nfit>>
Next == Fit \/ Update
\* every good row is mapped onto its star
Recovered == /\ st # "inexact"
             /\ st = "fitted" => LET n == Cardinality(Fitted) IN \A i \in 1..NRows : Good(rows[i]) =>
                  Apply(corr, <<n * Place(i)[1], n * Place(i)[2]>>) = <<n * Sub(Star(i), point)[1], n * Sub(Star(i), point)[2]>>
RotationFound == st = "fitted" => corr.k = turn
Converges == st = "fitted" /\ nfit > 1 => corr.off = <<0, 0>>
OnlyGood == \A i \in Used(rows, Kept(rows, 2000)) : Good(rows[i])
AllGood == \A i \in 1..NRows : Good(rows[i]) => i \in Used(rows, Kept(rows, 2000))
Emit == (nfit = 0 /\ st = "read" /\ turn = 0 /\ tel = <<0, 0>> /\ point = <<0, 0>>) => PrintT("@@CASE " \o ToJson(rows))
=============================================================================
