------------------------------- MODULE ProcTrace -------------------------------
(***************************************************************************)
(* Recorded runs of the program.                                            *)
(* "run": a run of Proc with e.code, e.tables (<<suffix, frame it shows>>), *)
(*   e.odd (other files).                                                   *)
(* "spot": one row of a table: e.is (what was simulated: "fiber", "pin",    *)
(*   "stray"), e.loc, e.pid (its device, -1: none known), e.gloc, e.gpid    *)
(*   (given), e.split (PETAL_LOC * 1000 + DEVICE_LOC), e.free (pattern      *)
(*   cannot be told), e.fp (0.1 um from the simulated place), e.map (1e-7   *)
(*   mm from the written transform), e.exp, e.metro (0.1 um from expected   *)
(*   and metrology coordinates of its own device), e.name (DEVICE_ID is     *)
(*   that of the device), e.sky (mas), e.tol.                               *)
(* "table": e.n spots, e.rows, e.same (spots unchanged), e.pairs (devices   *)
(*   given twice), e.left, e.field: rms offset with and without correction. *)
(* "cache": a history of ProcCache: e.h: <<want, got>>.                     *)
(***************************************************************************)
EXTENDS Proc, TraceCheck
SetOf(s) == { s[i] : i \in DOMAIN s }
RunFails(e) ==
  LET x == ExpectedCode(e) IN
  (IF x = 99 THEN (IF e.code # 0 THEN {} ELSE {"failure-not-reported"})
   ELSE IF e.code = x THEN {} ELSE IF e.code = 0 THEN {"failure-not-reported"} ELSE IF x = 0 THEN {"failed"} ELSE {"wrong-code"})
  \union (IF ExpectedTables(e) \subseteq SetOf(e.tables) THEN {} ELSE {"table-missing"})
  \union (IF SetOf(e.tables) \subseteq ExpectedTables(e) THEN {} ELSE {"table-of-another-frame"})
  \union (IF e.odd = 0 THEN {} ELSE {"other-files"})
SpotFails(e) ==
  (IF e.gloc = e.loc THEN {} ELSE IF e.gloc = -1 THEN {"not-matched"} ELSE {"wrong-device"})
  \union (IF e.gloc = -1 \/ e.split = e.gloc THEN {} ELSE {"inconsistent-location"})
  \union (IF e.is # "pin" /\ e.gpid # 0 THEN {"not-a-pinhole"} ELSE IF e.is = "pin" /\ ~e.free /\ e.gpid # e.pid THEN {"wrong-pinhole"} ELSE {})
  \union (IF e.fp <= e.tol THEN {} ELSE {"wrong-place"}) \union (IF e.map <= 10 THEN {} ELSE {"not-the-written-map"})
  \union (IF e.gloc # e.loc \/ e.exp <= 1 THEN {} ELSE {"expected-of-another"}) \union (IF e.metro <= 1 THEN {} ELSE {"metrology-of-another"})
  \union (IF e.gloc # e.loc \/ e.name THEN {} ELSE {"name-of-another"}) \union (IF e.sky <= 2 THEN {} ELSE {"wrong-sky"})
PFails(e) ==
  CASE e.op = "run" -> RunFails(e)
    [] e.op = "spot" -> SpotFails(e)
    [] e.op = "table" -> IF e.code # 0 THEN {"failed"} ELSE
         (IF e.rows = e.n /\ e.same THEN {} ELSE {"spots-not-kept"}) \union (IF e.pairs = 0 THEN {} ELSE {"device-twice"})
         \union (IF e.map = 1 THEN {} ELSE {"no-transform"}) \union (IF 2 * e.left <= e.field THEN {} ELSE {"turbulence-left"})
    [] OTHER -> (IF \A i \in DOMAIN e.h : e.h[i].want = e.h[i].got THEN {} ELSE {"stale-or-lost"}) \union (IF e.named THEN {} ELSE {"output-name"})
=============================================================================
