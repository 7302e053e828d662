------------------------------- MODULE FvcFit -------------------------------
(***************************************************************************)
(* An FVC map object through a history of fits: where each of its          *)
(* parameters comes from. A fit sets the offsets, the scale unless fixed,  *)
(* the rotation unless fixed, the distortion only when asked; the map of   *)
(* the scene fitted last must come out whatever the history (recovered),   *)
(* provided the free parameters can express it.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFits, Scenes
VARIABLES hist, par

Starts == {"new", "full", "short"}   \* full: all low order terms; short: 8 terms
Options == [scene : Scenes, fixs : BOOLEAN, fixr : BOOLEAN, zb : BOOLEAN, update : BOOLEAN]
Params == {"scale", "rotation", "offset", "zb"}

Init == hist = <<>> /\ \E s \in Starts : par = [p \in Params \union {"start"} |-> IF p = "start" THEN s ELSE 0]
Fit(o) == /\ Len(hist) < MaxFits
          /\ (o.fixs \/ o.fixr) => (par.start # "new" \/ hist # <<>>)  \* a value to keep
          /\ hist' = Append(hist, o)
          /\ LET n == Len(hist) + 1 IN
             par' = [par EXCEPT !.scale = IF o.fixs THEN @ ELSE n, !.rotation = IF o.fixr THEN @ ELSE n,
                                !.offset = n, !.zb = IF o.zb THEN n ELSE @]
Next == \E o \in Options : Fit(o)
Fixed == \A k \in 1..Len(hist) :
           /\ hist[k].fixs => par.scale # k
           /\ hist[k].fixr => par.rotation # k
           /\ ~hist[k].zb => par.zb # k
Latest == hist # <<>> => /\ par.offset = Len(hist)
                         /\ ~hist[Len(hist)].fixs => par.scale = Len(hist)
Emit == Len(hist) = MaxFits => PrintT("@@CASE " \o ToJson([start |-> par.start, fits |-> hist]))
=============================================================================
