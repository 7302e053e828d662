------------------------------ MODULE OutsideModel ------------------------------
(***************************************************************************)
(* Two calls share a machine.  Each writes its input files, starts the     *)
(* program, which reads them, writes its output file and ends; then the    *)
(* call reads the output.  Files are named by a place: one for every call, *)
(* or the same for all (Flaw "shared").                                    *)
(***************************************************************************)
EXTENDS Outside, TLC, Json
CONSTANTS Flaw
VARIABLES prog, at, in, out, memory, result, order
vars == <<prog, at, in, out, memory, result, order>>
Calls == {1, 2}
Place(c) == IF Flaw = "shared" THEN 1 ELSE c
Init ==
  /\ prog \in [Calls -> Programs \ {"missing"}]
  /\ at = [c \in Calls |-> 0] /\ in = <<0, 0>> /\ out = <<0, 0>> /\ memory = <<0, 0>> /\ result = <<-1, -1>> /\ order = <<>>
Move(c) ==
  /\ at[c] < 4
  /\ at' = [at EXCEPT ![c] = @ + 1] /\ order' = Append(order, c) /\ UNCHANGED prog
  /\ CASE at[c] = 0 -> in' = [in EXCEPT ![Place(c)] = c] /\ UNCHANGED <<out, memory, result>>
       [] at[c] = 1 -> memory' = [memory EXCEPT ![c] = in[Place(c)]] /\ UNCHANGED <<in, out, result>>
       [] at[c] = 2 -> (IF MayAnswer(prog[c]) THEN out' = [out EXCEPT ![Place(c)] = memory[c]] ELSE UNCHANGED out) /\ UNCHANGED <<in, memory, result>>
       [] OTHER -> result' = [result EXCEPT ![c] = IF prog[c] = "fails" THEN 0
                     ELSE IF Flaw = "quiet" /\ prog[c] = "silent" THEN c
                     ELSE out[Place(c)]]     \* 0: no output file, an error
                   /\ UNCHANGED <<in, out, memory>>
Next == \E c \in Calls : Move(c)
OwnAnswer == \A c \in Calls : result[c] \in {-1, 0, c}
AnswersOnly == \A c \in Calls : result[c] # -1 => (result[c] = c) = MayAnswer(prog[c])
Done == \A c \in Calls : at[c] = 4
\* the second call in one piece somewhere within the first
Whole(c) == \E i \in 1..5 : i + 3 <= Len(order) /\ \A j \in 0..3 : order[i + j] = c
Before(c) == Cardinality({ i \in 1..Len(order) : order[i] # c /\ \A j \in 1..i : order[j] # c })
EmitInv == IF Done /\ Flaw = "none" /\ Whole(2) THEN PrintT("@@CASE " \o ToJson([prog |-> prog, place |-> Before(2)])) ELSE TRUE
===============================================================================
