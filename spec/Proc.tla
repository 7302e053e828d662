---------------------------------- MODULE Proc ----------------------------------
(***************************************************************************)
(* One run of the FVC image program.  A run is described by                 *)
(*   in     "csv" (a table of spots), "one" (FITS with one image), "many"   *)
(*          (FITS with frames), "other"                                     *)
(*   out    "csv" or "txt", thr: the withdrawn option --threshold is given  *)
(*   sel    "default" (F0000), "named", "last", "sequence"; named: the frame*)
(*   frames sequence of [name, has]; name: number of the frame (its HDU is  *)
(*          F000n), 99 for an HDU that is not a frame; has: "full" (spots   *)
(*          and fiducials), "few" (spots, at most two fiducials), "none"    *)
(*   nomatch, min, max (limits lie between the number of spots of "few" and *)
(*          that of "full")                                                 *)
(* Codes: 0 done, 1 withdrawn option, 12 output is not a table, 13 input of *)
(* unknown kind or too few fiducials, 99 any failure of the detection.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
IsFrame(f) == f.name # 99
Names(c) == { c.frames[i].name : i \in DOMAIN c.frames }
\* frames to be processed, in order
Selected(c) ==
  IF c.in = "csv" \/ c.in = "one" THEN <<1>>
  ELSE LET idx == [i \in DOMAIN c.frames |-> i]
           F == SelectSeq(idx, LAMBDA i : IsFrame(c.frames[i]))
           named(n) == SelectSeq(idx, LAMBDA i : c.frames[i].name = n)
       IN CASE c.sel = "sequence" -> F
            [] c.sel = "named" -> named(c.named)
            [] c.sel = "default" -> named(0)
            [] OTHER -> SelectSeq(F, LAMBDA i : \A j \in DOMAIN c.frames : IsFrame(c.frames[j]) => c.frames[j].name <= c.frames[i].name)
Skip(c, f) == \/ c.min /\ f.has # "full"
              \/ c.max /\ f.has = "full"
\* outcome of one frame whose spots are known
Outcome(c, f) == IF Skip(c, f) THEN "skipped" ELSE IF c.nomatch THEN "table" ELSE IF f.has = "full" THEN "table" ELSE "failed"
\* suffix of the output: -1 none, else the number of the frame
Suffix(c, i) == IF c.sel # "sequence" THEN -1 ELSE IF c.in = "csv" THEN 0 ELSE c.frames[i].name
Refused(c) == IF c.out # "csv" THEN 12 ELSE IF c.thr THEN 1 ELSE IF c.in = "other" THEN 13 ELSE 0
Unreadable(c) == c.in # "csv" /\ (\E i \in Range(Selected(c)) : c.frames[i].has = "none")
Missing(c) == c.in = "many" /\ Selected(c) = <<>> /\ c.sel # "sequence"
FirstFail(c) == LET S == Selected(c) B == { k \in DOMAIN S : Outcome(c, c.frames[S[k]]) = "failed" } IN
  IF B = {} THEN Len(S) + 1 ELSE CHOOSE k \in B : \A j \in B : k <= j
ExpectedCode(c) ==
  IF Refused(c) # 0 THEN Refused(c) ELSE IF Missing(c) \/ Unreadable(c) THEN 99
  ELSE IF FirstFail(c) <= Len(Selected(c)) THEN 13 ELSE 0
\* tables written: <<suffix, index of the frame it describes>>
ExpectedTables(c) ==
  IF Refused(c) # 0 \/ Missing(c) \/ Unreadable(c) THEN {}
  ELSE LET S == Selected(c) IN { <<Suffix(c, S[k]), S[k]>> : k \in { j \in DOMAIN S : j < FirstFail(c) /\ Outcome(c, c.frames[S[j]]) = "table" } }
=============================================================================
