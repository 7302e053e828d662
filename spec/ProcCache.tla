------------------------------- MODULE ProcCache -------------------------------
(***************************************************************************)
(* Repeated processing of one image by process_fvc: the image may be        *)
(* replaced between calls (version n; good or broken); a call returns the   *)
(* table of an earlier call when there is one and a new one is not asked    *)
(* for, the table of the present image otherwise, and nothing when the      *)
(* processing fails: then the kept table does not change.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Flaw
VARIABLES hist, version, good, kept, res
vars == <<hist, version, good, kept, res>>
\* res: version of the table returned by the last call, 0 nothing
Init == hist = <<>> /\ version = 1 /\ good = TRUE /\ kept = 0 /\ res = -1
Replace(g) == hist' = Append(hist, [op |-> "replace", good |-> g, over |-> FALSE, res |-> -1])
              /\ version' = version + 1 /\ good' = g /\ res' = -1 /\ UNCHANGED kept
Value(over) == IF kept > 0 /\ ~over THEN kept ELSE IF good THEN version ELSE IF Flaw = "old" THEN kept ELSE 0
Call(over) ==
  /\ res' = Value(over)
  /\ kept' = IF kept > 0 /\ ~over THEN kept ELSE IF good THEN version ELSE kept
  /\ hist' = Append(hist, [op |-> "call", good |-> good, over |-> over, res |-> Value(over)])
  /\ UNCHANGED <<version, good>>
Next == Len(hist) < MaxLen /\ ((\E g \in BOOLEAN : Replace(g)) \/ (\E o \in BOOLEAN : Call(o)))
\* a table asked for anew describes the present image
Fresh == \A i \in DOMAIN hist : hist[i].op = "call" /\ hist[i].over =>
           LET n == 1 + Cardinality({ j \in 1..i : hist[j].op = "replace" }) IN hist[i].res = IF hist[i].good THEN n ELSE 0
EmitInv == IF Len(hist) = MaxLen /\ Flaw = "none" THEN PrintT("@@CASE " \o ToJson([h |-> hist])) ELSE TRUE
=============================================================================
