----------------------------- MODULE FocalGraph ------------------------------
(* Frames of the focal plane around the CS5 frame "fp": three petals, two    *)
(* guide cameras, two fibre view camera models, the tangent plane for two    *)
(* ADC settings, the curved surface (q,s) and (u,v), PlateMaker and the      *)
(* Echo22 tangent plane; petal "ptlA" can also be placed with a table.       *)
EXTENDS FrameGraph
Hub(s) == { <<s[1], s[2], "fp">>, <<s[3], "fp", s[2]>> }
FocalEdges == UNION { Hub(s) : s \in {
    <<"ptl2fp", "ptlA", "fp2ptl">>, <<"ptl2fp", "ptlB", "fp2ptl">>, <<"ptl2fp", "ptlC", "fp2ptl">>,
    <<"gfa2fp", "gfaA", "fp2gfa">>, <<"gfa2fp", "gfaB", "fp2gfa">>,
    <<"fvc2fp", "fvcA", "fp2fvc">>, <<"fvc2fp", "fvcB", "fp2fvc">>,
    <<"tan2fp", "tanA", "fp2tan">>, <<"tan2fp", "tanB", "fp2tan">>,
    <<"qs2xy", "qs", "xy2qs">>, <<"uv2xy", "uv", "xy2uv">>,
    <<"pm2dm", "pm", "dm2pm">>, <<"echo2fp", "echo", "fp2echo">> } }
  \union { <<"apply_ptl2fp", "ptlA", "fp">> }
FocalStarts == {"fp", "ptlA", "ptlB", "tanA", "fvcA"}
\* walks record <<edge, destination>> so that the two ends are known
FEmit == (Len(walk) > 0 /\ Closed) =>
          PrintT("@@CASE " \o ToJson([w |-> [i \in 1..Len(walk) |-> <<walk[i][1], walk[i][3]>>],
                                      start |-> walk[1][2]]))
=============================================================================
