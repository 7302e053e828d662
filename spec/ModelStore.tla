----------------------------- MODULE ModelStore -----------------------------
(***************************************************************************)
(* Two model objects of one class and two places where a model can be kept *)
(* (a JSON text, a JSON file), through any history of configuring, fitting *)
(* saving and loading. A model is an assignment of values (the number of   *)
(* the step that gave them) to its groups of parameters: the coefficients  *)
(* of the map, the options of its evaluation, the figures of the fit.      *)
(* Written is what the serialised form carries: anything less than all the *)
(* groups violates RoundTrip.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Written
VARIABLES hist, obj, store, saved   \* saved: ghost, the model given to the last save into each place

Groups == {"map", "option", "figures"}
Objects == {"A", "B"}
Places == {"text", "file"}
Blank == [g \in Groups |-> -1]
Default == [g \in Groups |-> -2]

Init == /\ hist = <<>>
        /\ obj = [o \in Objects |-> [g \in Groups |-> 0]]
        /\ store = [m \in Places |-> Blank]
        /\ saved = [m \in Places |-> Blank]
Step(op) == Len(hist) < MaxOps /\ hist' = Append(hist, op)
Set(o, g) == /\ Step([op |-> "set", o |-> o, a |-> g])
             /\ obj' = [obj EXCEPT ![o][g] = Len(hist) + 1]
             /\ UNCHANGED <<store, saved>>
Fit(o) == /\ Step([op |-> "fit", o |-> o, a |-> "-"])
          /\ obj' = [obj EXCEPT ![o]["map"] = Len(hist) + 1, ![o]["figures"] = Len(hist) + 1]
          /\ UNCHANGED <<store, saved>>
Save(o, m) == /\ Step([op |-> "save", o |-> o, a |-> m])
              /\ store' = [store EXCEPT ![m] = [g \in Groups |-> IF g \in Written THEN obj[o][g] ELSE -1]]
              /\ saved' = [saved EXCEPT ![m] = obj[o]]
              /\ UNCHANGED obj
Load(m, o) == /\ saved[m] # Blank
              /\ Step([op |-> "load", o |-> o, a |-> m])
              /\ obj' = [obj EXCEPT ![o] = [g \in Groups |-> IF store[m][g] = -1 THEN Default[g] ELSE store[m][g]]]
              /\ UNCHANGED <<store, saved>>
Next == \E o \in Objects : \/ \E g \in Groups : Set(o, g)
                           \/ Fit(o)
                           \/ \E m \in Places : Save(o, m) \/ Load(m, o)
RoundTrip == \A k \in 1..Len(hist) : k = Len(hist) /\ hist[k].op = "load" => obj[hist[k].o] = saved[hist[k].a]
NoDefaults == \A o \in Objects, g \in Groups : obj[o][g] >= 0
\* histories worth replaying: they end with a load and, before it, change something
Emit == Len(hist) = MaxOps /\ hist[MaxOps].op = "load" /\ hist[1].op \in {"set", "fit", "save"}
        => PrintT("@@CASE " \o ToJson(hist))
=============================================================================
