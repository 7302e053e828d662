------------------------------ MODULE CallHistory ------------------------------
(***************************************************************************)
(* A library as its caller sees it: functions of one family keep what they  *)
(* computed (store) in objects (heap); the caller holds the object returned *)
(* last (got) and the object given last (arg), and may overwrite both; a    *)
(* call may fail (argument 0).  The result of function f for argument a has *)
(* to be 10 f + a, whatever was called before, and arguments stay as they   *)
(* were given.                                                              *)
(* Flaw: "first"  what was kept for another argument is used again          *)
(*       "family" what another function of the family kept is used          *)
(*       "alias"  the object kept is returned, not a copy                   *)
(*       "hold"   the argument's object is kept, not a copy                 *)
(*       "half"   a call that fails has already replaced what was kept      *)
(*       "input"  the call works on its argument                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Flaw
VARIABLES hist, heap, store, got, arg
vars == <<hist, heap, store, got, arg>>
F == {1, 2}
A == {1, 2}
None == [key |-> -1, obj |-> 0]
\* heap[i]: the value of object i (objects are never reused)
Init == hist = <<>> /\ heap = <<>> /\ store = [f \in F |-> None] /\ got = 0 /\ arg = 0
Slot(f) == IF Flaw = "family" THEN 1 ELSE f
Usable(f, a) == LET s == store[Slot(f)] IN s.key = a \/ (Flaw = "first" /\ s.key > -1)
Note(h) == hist' = Append(hist, h)
Call(f, a) ==
  LET in == Len(heap) + 1
      s == store[Slot(f)]
      hit == Usable(f, a)
      heap1 == Append(heap, IF Flaw = "input" THEN a + 5 ELSE a)       \* the argument given
      kept == IF hit THEN s.obj ELSE in + 1
      heap2 == IF hit THEN heap1 ELSE Append(heap1, 10 * f + a)
      held == IF Flaw = "hold" /\ ~hit THEN in ELSE kept
      out == IF Flaw = "alias" THEN kept ELSE Len(heap2) + 1
      val == IF Flaw = "hold" /\ hit THEN 10 * f + heap2[s.obj] ELSE heap2[kept]
      heap3 == IF Flaw = "alias" THEN heap2 ELSE Append(heap2, val)
  IN /\ heap' = heap3
     /\ store' = [store EXCEPT ![Slot(f)] = IF hit THEN @ ELSE [key |-> a, obj |-> held]]
     /\ got' = out /\ arg' = in
     /\ Note([op |-> "call", f |-> f, a |-> a, res |-> heap3[out], in |-> heap3[in]])
Fail(f) ==
  /\ store' = IF Flaw = "half" THEN [store EXCEPT ![Slot(f)] = IF @.key = -1 THEN @ ELSE [@ EXCEPT !.key = 3 - @]] ELSE store
  /\ Note([op |-> "fail", f |-> f, a |-> 0, res |-> 0, in |-> 0])
  /\ UNCHANGED <<heap, got, arg>>
Overwrite(what, obj) ==
  /\ obj # 0 /\ heap' = [heap EXCEPT ![obj] = 99]
  /\ Note([op |-> what, f |-> 0, a |-> 0, res |-> 0, in |-> 0]) /\ UNCHANGED <<store, got, arg>>
Next == Len(hist) < MaxLen /\
  ((\E f \in F, a \in A : Call(f, a)) \/ (\E f \in F : Fail(f)) \/ Overwrite("result", got) \/ Overwrite("argument", arg))
Pure == \A i \in DOMAIN hist : hist[i].op = "call" => hist[i].res = 10 * hist[i].f + hist[i].a
Intact == \A i \in DOMAIN hist : hist[i].op = "call" => hist[i].in = hist[i].a
Cases(h) == PrintT("@@CASE " \o ToJson([h |-> [i \in DOMAIN h |-> [op |-> h[i].op, f |-> h[i].f, a |-> h[i].a]]]))
\* with a flaw on: the shortest histories that show it
Shown == ~Pure \/ ~Intact
Silent == hist = <<>> \/ ~Shown
RevealInv == IF Shown THEN Cases(hist) ELSE TRUE
EmitInv == IF Len(hist) = MaxLen /\ Flaw = "none" THEN Cases(hist) ELSE TRUE
=============================================================================
