------------------------------- MODULE CorrModel -------------------------------
(***************************************************************************)
(* One correction object fitted again and again.  Its parameters carry the *)
(* name of the data they were derived from; a rigid fit sets the scales to *)
(* one.                                                                    *)
(***************************************************************************)
EXTENDS Average, TLC, Json
CONSTANTS Data, MaxLen, Flaw
VARIABLES off, rot, scale, rms, h
vars == <<off, rot, scale, rms, h>>
Init == off = "zero" /\ rot = "zero" /\ scale = "one" /\ rms = "zero" /\ h = <<>>
Fit(d) == off' = d /\ scale' = d /\ rms' = d /\ h' = Append(h, <<"fit", d>>)
          /\ rot' = IF Flaw = "rot" /\ rot # "zero" THEN rot ELSE d
Solid(d) == off' = d /\ rot' = d /\ h' = Append(h, <<"solid", d>>) /\ rms' = d
          /\ scale' = IF Flaw = "scale" THEN scale ELSE "one"
Copy == h' = Append(h, <<"copy", "-">>) /\ UNCHANGED <<off, rot, scale>> /\ rms' = rms
Next == Len(h) < MaxLen /\ ((\E d \in Data : Fit(d) \/ Solid(d)) \/ (h # <<>> /\ Copy))
LastFit == LET I == { i \in DOMAIN h : h[i][1] # "copy" } IN IF I = {} THEN <<"none", "zero">> ELSE h[CHOOSE i \in I : \A j \in I : j <= i]
OfLast == LET f == LastFit IN
   CASE f[1] = "none" -> off = "zero" /\ rot = "zero" /\ scale = "one"
     [] f[1] = "fit" -> off = f[2] /\ rot = f[2] /\ scale = f[2] /\ rms = f[2]
     [] OTHER -> off = f[2] /\ rot = f[2] /\ scale = "one" /\ rms = f[2]
EmitInv == IF Len(h) = MaxLen /\ Flaw = "none" THEN PrintT("@@CASE " \o ToJson([h |-> h])) ELSE TRUE
=============================================================================
