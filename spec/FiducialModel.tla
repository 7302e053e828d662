--------------------------- MODULE FiducialModel ----------------------------
(***************************************************************************)
(* Identifying the pinholes of fiducials in a list of spots, call after    *)
(* call. A scene shows, of each fiducial, all of its pinholes, all but     *)
(* one, or none; plus other spots: alone, or a crowd as dense as a         *)
(* fiducial. Spots come in any order. A spot with three close neighbours   *)
(* is a candidate; each known fiducial keeps one candidate, near it; its   *)
(* cluster is labelled by pattern. Whatever was called before (lens, the   *)
(* expected pixels it implies, scenes), the labels are a function of the   *)
(* scene: that is the property, and the model has the expected pixels as   *)
(* explicit state so that a stale expectation is a reachable error if the  *)
(* expectation is not recomputed per call (Recompute = FALSE).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCalls, Lenses, Recompute
VARIABLES calls, expected, labels

Fids == {1, 2}
Views == {"full", "partial", "absent"}
Others == {"none", "alone", "crowd"}
Call == [lens : Lenses, view : [Fids -> Views], others : Others]
Pins(v) == CASE v = "full" -> 1..4 [] v = "partial" -> 1..3 [] v = "absent" -> {}
Spots(c) == (UNION { { <<f, k>> : k \in Pins(c.view[f]) } : f \in Fids })
            \union (CASE c.others = "none" -> {} [] c.others = "alone" -> {<<0, 1>>}
                      [] c.others = "crowd" -> {<<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 4>>})
Cluster(c, s) == { t \in Spots(c) : t[1] = s[1] }
Candidates(c) == { s \in Spots(c) : Cardinality(Cluster(c, s)) >= 4 }
\* a candidate is near a known fiducial only where the expectation is for this lens
NearFid(c, s) == IF s[1] = 0 \/ expected' # c.lens THEN 0 ELSE s[1]
Label(c) == [s \in Spots(c) |->
               IF \E k \in Candidates(c) : NearFid(c, k) # 0 /\ s \in Cluster(c, k)
               THEN s ELSE <<-1, 0>>]

Init == calls = <<>> /\ expected = "none" /\ labels = <<>>
Do(c) == /\ Len(calls) < MaxCalls
         /\ calls' = Append(calls, c)
         /\ expected' = IF Recompute \/ expected = "none" THEN c.lens ELSE expected
         /\ labels' = Label(c)
Next == \E c \in Call : Do(c)

Last == calls[Len(calls)]
Correct == calls = <<>> \/ \A s \in DOMAIN labels :
             /\ labels[s] \in {s, <<-1, 0>>}
             /\ s[1] = 0 => labels[s] = <<-1, 0>>
             /\ (s[1] # 0 /\ Last.view[s[1]] = "full") => labels[s] = s
Emit == Len(calls) = MaxCalls => PrintT("@@CASE " \o ToJson(calls))
=============================================================================
