----------------------------- MODULE FrameGraph ------------------------------
(***************************************************************************)
(* Coordinate systems and the transforms between them.  One physical point *)
(* has exactly one representation per system, so whatever walk along the   *)
(* transforms is taken, coming back to a system must give back the         *)
(* representation first seen there (path independence; in particular every *)
(* transform undoes its inverse).  The model abstracts the representation  *)
(* of a point to a residue: system s shows point p as (p + Shift[s]) % N,   *)
(* and a transform a -> b adds Shift[b] - Shift[a].                        *)
(* Used as a generator, it enumerates every closed walk up to MaxLen.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Edges,      \* set of <<name, from, to>>
          Starts,     \* systems where walks start
          MaxLen,
          EmitAll     \* also emit walks that are not closed
VARIABLES sys, walk, seen

Systems == { e[2] : e \in Edges } \union { e[3] : e \in Edges }
N == 7
RECURSIVE Shifts(_, _)
Shifts(S, k) == IF S = {} THEN <<>>
                ELSE LET s == CHOOSE s \in S : TRUE
                     IN (s :> (3 * k + 1) % N) @@ Shifts(S \ {s}, k + 1)
Shift == Shifts(Systems, 0)
Repr(p, s) == (p + Shift[s]) % N

Init == /\ sys \in Starts
        /\ walk = <<>>
        /\ seen = [s \in Systems |-> IF s = sys THEN {Repr(3, s)} ELSE {}]

Closed == \E i \in 1..Len(walk) : walk[i][2] = sys

Step(e) == /\ e[2] = sys
           /\ Len(walk) < MaxLen
           /\ sys' = e[3]
           /\ walk' = Append(walk, e)
           /\ LET v == CHOOSE x \in seen[sys] : TRUE
                  w == (v + Shift[e[3]] - Shift[sys] + N) % N
              IN seen' = [seen EXCEPT ![e[3]] = @ \union {w}]

Next == \E e \in Edges : Step(e)

PathIndependent == \A s \in Systems : Cardinality(seen[s]) <= 1
Emit == (Len(walk) > 0 /\ (Closed \/ (EmitAll /\ Len(walk) = MaxLen))) =>
          PrintT("@@CASE " \o ToJson([w |-> [i \in 1..Len(walk) |-> walk[i][1]],
                                      start |-> walk[1][2], closed |-> Closed]))
=============================================================================
