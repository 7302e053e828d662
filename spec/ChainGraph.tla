----------------------------- MODULE ChainGraph ------------------------------
(* Systems of one fibre positioner: internal angles, external angles, local,  *)
(* flat and petal coordinates, and every transform between them.             *)
EXTENDS FrameGraph
ChainEdges == {
  <<"int2ext", "int", "ext">>, <<"ext2int", "ext", "int">>,
  <<"ext2loc", "ext", "loc">>, <<"loc2ext", "loc", "ext">>, <<"loc2ext_guess", "loc", "ext">>,
  <<"loc2flat", "loc", "flat">>, <<"flat2loc", "flat", "loc">>,
  <<"flat2ptl", "flat", "ptl">>, <<"ptl2flat", "ptl", "flat">>,
  <<"int2loc", "int", "loc">>, <<"loc2int", "loc", "int">>, <<"loc2int_guess", "loc", "int">>,
  <<"int2ptl", "int", "ptl">>, <<"ptl2int", "ptl", "int">>, <<"ptl2int_guess", "ptl", "int">> }
ChainStarts == {"int", "ext"}
=============================================================================
