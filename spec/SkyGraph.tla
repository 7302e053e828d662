------------------------------ MODULE SkyGraph ------------------------------
(***************************************************************************)
(* From the sky to the focal plane.                                        *)
(*   sky   ICRS direction           s1  after precession                   *)
(*   s2    after aberration         h1  hour angle frame                   *)
(*   h2    frame of the mount       a1  horizontal, outside the atmosphere *)
(*   a2    horizontal, refracted    h3  hour angle, refracted              *)
(*   t1    tangent plane before the hexapod rotation,  tan  after it       *)
(*   tanc  tangent plane of the instrument,  fp  focal plane (CS5)         *)
(*   flat  curved focal surface;  ecl  ecliptic direction                  *)
(*   cs5, cs5f  focal plane planned for a tile with field rotation         *)
(* radec2tan, radec2fp and fiberassign_* are composites, which must agree  *)
(* with the walk through the elementary transforms.                        *)
(* Walks emitted: all closed walks up to 4 steps, and all cycles up to      *)
(* MaxLen that meet no system twice.                                     *)
(***************************************************************************)
EXTENDS FrameGraph
Pair(f, b, s, t) == { <<f, s, t>>, <<b, t, s>> }
SkyEdges == Pair("precess", "unprecess", "sky", "s1")
     \union Pair("aberrate", "unaberrate", "s1", "s2")
     \union Pair("ra2ha", "ha2ra", "s2", "h1")
     \union Pair("polmis", "unpolmis", "h1", "h2")
     \union Pair("hadec2altaz", "altaz2hadec1", "h2", "a1")
     \union Pair("refract", "unrefract", "a1", "a2")
     \union Pair("altaz2hadec", "hadec2altaz2", "a2", "h3")
     \union Pair("hadec2xy", "xy2hadec", "h3", "t1")
     \union Pair("hexrot", "unhexrot", "t1", "tan")
     \union Pair("sky2inst", "inst2sky", "tan", "tanc")
     \union Pair("tan2fp", "fp2tan", "tanc", "fp")
     \union Pair("ptl2flat", "flat2ptl", "fp", "flat")
     \union Pair("radec2eclip", "eclip2radec", "sky", "ecl")
     \union Pair("radec2tan", "tan2radec", "sky", "tan")
     \union Pair("radec2fp", "fp2radec", "sky", "fp")
     \union Pair("fa_cs5", "fa_cs5_inv", "sky", "cs5")
     \union Pair("fa_flat", "fa_flat_inv", "sky", "cs5f")
     \union Pair("cs5_ptl2flat", "cs5_flat2ptl", "cs5", "cs5f")
SkyStarts == {"sky", "tan", "a1", "h1"}
Visited == { walk[i][3] : i \in 1..Len(walk) }
FirstMeet == Cardinality(Visited) = Len(walk)      \* no system entered twice
MaxLen0 == 4
\* once a long walk is back at its start it ends there
SkyStep(e) == /\ IF Len(walk) < MaxLen0 THEN TRUE
                 ELSE FirstMeet /\ e[3] \notin Visited /\ walk[1][2] \notin Visited
              /\ Step(e)
SkyNext == \E e \in Edges : SkyStep(e)
SEmit == (Len(walk) > 0 /\ (IF Len(walk) <= MaxLen0 THEN Closed ELSE FirstMeet /\ sys = walk[1][2])) =>
          PrintT("@@CASE " \o ToJson([w |-> [i \in 1..Len(walk) |-> <<walk[i][1], walk[i][3]>>],
                                      start |-> walk[1][2]]))
=============================================================================
