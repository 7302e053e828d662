------------------------------ MODULE FiberModel ------------------------------
(***************************************************************************)
(* All expressions up to MaxLen characters: the automaton accepts exactly  *)
(* the expressions that denote a list, with that list.                     *)
(***************************************************************************)
EXTENDS FiberList, TLC, Json
CONSTANTS MaxLen, Alphabet
VARIABLES s, q
Init == s = <<>> /\ q = Fresh
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c) /\ q' = Step(q, c)
SameLanguage == Accept(q) = Denote(s)
Emit == PrintT("@@CASE " \o ToJson(s))
=============================================================================
