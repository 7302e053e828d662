---------------------------- MODULE CalibHistory ----------------------------
(***************************************************************************)
(* Positioners calibrated one after the other in one process. The fitter   *)
(* starts from module-level tables of nominal values and bounds (tab: the  *)
(* drift parameters it holds) and adds to its own copy the drift           *)
(* parameters of the positioner. Shared: it works on the table itself.     *)
(* The parameters fitted for a positioner are those of its own data.       *)
(* Also enumerates the conditions of the data of one positioner.           *)
(***************************************************************************)
EXTENDS CalibOutcome, TLC, Json
CONSTANTS Shared, Length, Kinds
VARIABLES tab, hist, fitted
Drifts(k) == CASE k = "drift" -> {1, 2} [] k = "many" -> 1..12 [] k = "late" -> {3} [] OTHER -> {}
Init == tab = {} /\ hist = <<>> /\ fitted = <<>>
Fit(k) == /\ Len(hist) < Length
          /\ hist' = Append(hist, k)
          /\ LET mine == tab \union Drifts(k) IN
             /\ fitted' = Append(fitted, mine)
             /\ tab' = IF Shared THEN mine ELSE tab
Next == \E k \in Kinds : Fit(k)
OwnParameters == \A i \in DOMAIN hist : fitted[i] = Drifts(hist[i])
TablesIntact == tab = {}
Emit == Len(hist) = Length => PrintT("@@CASE " \o ToJson(hist))

Still == << <<130000, 12, 340000, 3>>, <<60000, 1, 0, 0>> >>
Moves == << <<130000, 12, 340000, 2400>>, <<60000, 1, 0, 0>> >>
Conds == { [level |-> l, ok |-> o, n |-> n, minw |-> 10, nre |-> r, wins |-> g, few |-> FALSE] :
           l \in {"fit", "table"}, o \in BOOLEAN, n \in {0, 6, 30}, r \in {0, 4, 6, 16, 30}, g \in { <<Still>>, <<Moves>>, <<Still, Moves>>, <<Moves, Moves>> } }
Possible == { c \in Conds : c.nre <= c.n /\ (c.level = "fit" => c.ok /\ c.n > 0) }
ASSUME \A c \in Possible :
  /\ Outcome(c)[1] = "params" => c.nre > 0 /\ ~Stuck(c)
  /\ Outcome(c)[1] = "flags" => Outcome(c)[2] # {}
  /\ PrintT("@@COND " \o ToJson([c |-> c, stuck |-> Stuck(c), out |-> Outcome(c)[1]]))
=============================================================================
