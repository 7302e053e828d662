----------------------------- MODULE LookupGraph -----------------------------
(* Radius r, distance along the surface s, height z and nutation n of the    *)
(* focal surface, and every lookup between them.                             *)
EXTENDS FrameGraph
LookupEdges == { <<"r2s", "r", "s">>, <<"s2r", "s", "r">>, <<"r2z", "r", "z">>, <<"z2r", "z", "r">>,
                 <<"r2n", "r", "n">>, <<"n2r", "n", "r">>, <<"s2n", "s", "n">>, <<"s2z", "s", "z">>,
                 <<"z2s", "z", "s">>, <<"n2s", "n", "s">> }
LookupStarts == {"r", "s", "z", "n"}
=============================================================================
