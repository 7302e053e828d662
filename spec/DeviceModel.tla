------------------------------ MODULE DeviceModel ------------------------------
(***************************************************************************)
(* One device through the exposures of a calibration, as the program that  *)
(* fits circles reads them: the entries of the first exposure open the     *)
(* list, later exposures add to it.                                        *)
(***************************************************************************)
EXTENDS Circle, TLC, Json
CONSTANTS NExp, Flaw
VARIABLES kind, moves, fits, h, xs, listed
vars == <<kind, moves, fits, h, xs, listed>>
Words == {"once", "twice", "absent", "zero"}
Init ==
  /\ kind \in {"pos", "fid"} /\ moves \in BOOLEAN /\ fits \in BOOLEAN
  /\ (kind = "fid" => ~moves) /\ h = <<>> /\ xs = <<>> /\ listed = "?"
Read ==
  /\ Len(h) < NExp /\ UNCHANGED <<kind, moves, fits, listed>>
  /\ \E w \in Words :
       /\ h' = Append(h, w)
       /\ xs' = CASE w = "once" -> Append(xs, "m")
                  [] w = "zero" -> Append(xs, "0")
                  [] w = "twice" /\ Flaw = "both" -> Append(Append(xs, "m"), "m")
                  [] OTHER -> xs
Decide ==
  /\ Len(h) = NExp /\ listed = "?" /\ UNCHANGED <<kind, moves, fits, h, xs>>
  /\ listed' = LET real == Len(SelectSeq(xs, LAMBDA v : v = "m"))
                   few == (IF Flaw = "few" THEN 5 ELSE MinMeasurements)
                   ok == Len(xs) >= few /\ real > 0 /\ fits /\ (kind = "pos" => moves \/ Flaw = "still")
               IN IF ok THEN "yes" ELSE "no"
Next == Read \/ Decide
Right == listed # "?" => (listed = "yes") \in Listed([kind |-> kind, moves |-> moves, fits |-> fits, h |-> h]) \/ Times(h, "once") = 0
EmitInv == IF listed # "?" /\ Flaw = "none" /\ Times(h, "once") + Times(h, "zero") >= 4 /\ Times(h, "once") >= 4
           THEN PrintT("@@CASE " \o ToJson([kind |-> kind, moves |-> moves, fits |-> fits, h |-> h])) ELSE TRUE
===============================================================================
