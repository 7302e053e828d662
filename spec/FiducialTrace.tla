--------------------------- MODULE FiducialTrace ----------------------------
(***************************************************************************)
(* Recorded calls. e.truth, e.got: per spot of the scene, in the order of  *)
(* the scene (not of the call), <<location, pinhole>> of the pinhole it    *)
(* came from (<<-1, 0>> for other spots) and <<LOCATION, PINHOLE_ID,       *)
(* PETAL_LOC, DEVICE_LOC>> reported. e.full: locations whose pinholes must *)
(* all be found. e.free: locations whose pattern is ambiguous at the noise *)
(* of the scene. State: labels of each scene when first seen.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceRuns
FiStart(e) == <<>>
FiFollow(s, e) == IF "exc" \in DOMAIN e \/ e.scene \in DOMAIN s THEN s ELSE s @@ (e.scene :> e.got)
Range(f) == { f[i] : i \in DOMAIN f }
FiFails(s, e) ==
  IF "exc" \in DOMAIN e THEN {"raised"}
  ELSE
  LET I == 1..Len(e.truth)
      full == Range(e.full)
      free == Range(e.free)
      id(i) == <<e.got[i][1], e.got[i][2]>>
      ided == { i \in I : e.got[i][2] > 0 }
  IN (IF \E i \in ided : id(i) # e.truth[i] /\ ~(e.truth[i][1] \in free /\ e.got[i][1] = e.truth[i][1])
      THEN {"wrong-pinhole"} ELSE {})
     \union (IF Cardinality({ id(i) : i \in ided }) # Cardinality(ided) THEN {"pinhole-given-twice"} ELSE {})
     \union (IF \E i \in I : e.truth[i][1] < 0 /\ (e.got[i][1] # -1 \/ e.got[i][2] # 0) THEN {"other-spot-labelled"} ELSE {})
     \union (IF \E i \in I : e.got[i][2] > 0 /\ e.got[i][1] < 0 THEN {"pinhole-without-location"} ELSE {})
     \union (IF \E i \in I : IF e.got[i][1] >= 0
                             THEN e.got[i][1] # 1000 * e.got[i][3] + e.got[i][4] \/ e.got[i][4] \notin 0..999
                             ELSE e.got[i][3] # -1 \/ e.got[i][4] # -1
             THEN {"location-inconsistent"} ELSE {})
     \union (IF \E i \in I : e.truth[i][1] \in full /\ id(i) # e.truth[i] THEN {"fiducial-missed"} ELSE {})
     \union (IF e.scene \in DOMAIN s /\ s[e.scene] # e.got THEN {"depends-on-order-or-history"} ELSE {})
=============================================================================
