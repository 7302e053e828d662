------------------------------ MODULE FiberList ------------------------------
(***************************************************************************)
(* Fibre list expressions as sequences of characters. Two definitions of   *)
(* what an expression denotes: Denote, by its structure (items between     *)
(* commas, each a number or a half-open range a:b a..b a-b), and the state *)
(* of an automaton reading it character by character (Step). Spaces are    *)
(* ignored; a blank expression denotes nothing. A denotation is            *)
(* [ok, v]; malformed expressions have ok = FALSE.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
DigitVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
     [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
IsDigit(c) == c \in DOMAIN DigitVal
NoSpaces(s) == SelectSeq(s, LAMBDA c : c # " ")
Span(a, b) == IF b <= a THEN <<>> ELSE [ i \in 1..(b - a) |-> a + i - 1 ]
Malformed == [ok |-> FALSE, v |-> <<>>]

-----------------------------------------------------------------------------
IsNumber(s) == s # <<>> /\ \A i \in DOMAIN s : IsDigit(s[i])
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + DigitVal[s[Len(s)]]
Seps == { <<":">>, <<".", ".">>, <<"-">> }
\* <<length of the first number, length of the separator>> of a range
Cuts(s) == { c \in (1..Len(s)) \X {1, 2} :
             /\ c[1] + c[2] < Len(s)
             /\ SubSeq(s, c[1] + 1, c[1] + c[2]) \in Seps
             /\ IsNumber(SubSeq(s, 1, c[1])) /\ IsNumber(SubSeq(s, c[1] + c[2] + 1, Len(s))) }
Item(s) == IF IsNumber(s) THEN [ok |-> TRUE, v |-> <<Value(s)>>]
           ELSE IF Cuts(s) = {} THEN Malformed
           ELSE LET c == CHOOSE x \in Cuts(s) : TRUE IN
                [ok |-> TRUE, v |-> Span(Value(SubSeq(s, 1, c[1])), Value(SubSeq(s, c[1] + c[2] + 1, Len(s))))]
RECURSIVE Items(_)
Items(s) == IF ~Contains(s, ",") THEN Item(s)
            ELSE LET k == CHOOSE i \in DOMAIN s : s[i] = "," /\ \A j \in 1..(i - 1) : s[j] # ","
                     a == Item(SubSeq(s, 1, k - 1))
                     b == Items(SubSeq(s, k + 1, Len(s)))
                 IN IF a.ok /\ b.ok THEN [ok |-> TRUE, v |-> a.v \o b.v] ELSE Malformed
Denote(s) == LET t == NoSpaces(s) IN IF t = <<>> THEN [ok |-> TRUE, v |-> <<>>] ELSE Items(t)

-----------------------------------------------------------------------------
\* automaton: [at, a, n, v]: where it is, first number of a range, number
\* being read, list so far
Fresh == [at |-> "start", a |-> 0, n |-> 0, v |-> <<>>]
Bad == [at |-> "bad", a |-> 0, n |-> 0, v |-> <<>>]
Step(q, c) ==
  IF c = " " \/ q.at = "bad" THEN q
  ELSE IF IsDigit(c) THEN
     CASE q.at \in {"start", "comma"} -> [q EXCEPT !.at = "number", !.n = DigitVal[c]]
       [] q.at \in {"number", "end"} -> [q EXCEPT !.n = 10 * q.n + DigitVal[c]]
       [] q.at = "sep" -> [q EXCEPT !.at = "end", !.n = DigitVal[c]]
       [] OTHER -> Bad
  ELSE IF c \in {":", "-"} THEN (IF q.at = "number" THEN [q EXCEPT !.at = "sep", !.a = q.n] ELSE Bad)
  ELSE IF c = "." THEN (IF q.at = "number" THEN [q EXCEPT !.at = "dot", !.a = q.n]
                        ELSE IF q.at = "dot" THEN [q EXCEPT !.at = "sep"] ELSE Bad)
  ELSE IF c = "," THEN
     CASE q.at = "number" -> [q EXCEPT !.at = "comma", !.v = Append(q.v, q.n)]
       [] q.at = "end" -> [q EXCEPT !.at = "comma", !.v = q.v \o Span(q.a, q.n)]
       [] OTHER -> Bad
  ELSE Bad
Accept(q) == CASE q.at = "start" -> [ok |-> TRUE, v |-> <<>>]
               [] q.at = "number" -> [ok |-> TRUE, v |-> Append(q.v, q.n)]
               [] q.at = "end" -> [ok |-> TRUE, v |-> q.v \o Span(q.a, q.n)]
               [] OTHER -> Malformed
=============================================================================
