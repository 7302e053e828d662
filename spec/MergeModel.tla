------------------------------ MODULE MergeModel ------------------------------
(***************************************************************************)
(* All sequences of at most MaxFiles files with at most MaxRows rows, over *)
(* two devices known to the metrology and one unknown, at most MaxOdd      *)
(* cells blank or wrong in all, and all options.                           *)
(* NoFill: a row is only given its location when no file has any location  *)
(* (must break Located).                                                   *)
(***************************************************************************)
EXTENDS Merge, Json, SequencesExt
CONSTANTS MaxFiles, MaxRows, MaxOdd, NoFill
VARIABLES files, opt, s, odd
M == [K |-> [LOCATION |-> 3005, DEVICE_LOC |-> 5, PETAL_LOC |-> 3, PETAL_ID |-> 8],
      L |-> [LOCATION |-> 3017, DEVICE_LOC |-> 17, PETAL_LOC |-> 3, PETAL_ID |-> 8]]
Own(d) == IF d \in DOMAIN M THEN M[d] ELSE [LOCATION |-> 4002, DEVICE_LOC |-> 2, PETAL_LOC |-> 4, PETAL_ID |-> 9]
ColSets == {{}, {"PETAL_ID", "PETAL_LOC", "DEVICE_LOC"}, LocCols, {"LOCATION"}, {"PETAL_LOC", "DEVICE_LOC"}, {"DEVICE_LOC"}}
Row(d, c, w) == [dev |-> d, miss |-> IF w = "blank" THEN {c} ELSE {},
                 loc |-> IF w = "wrong" THEN [Own(d) EXCEPT ![c] = @ + 1] ELSE Own(d)]
Init == files = <<>> /\ opt \in [check : BOOLEAN, metro : BOOLEAN] /\ s = Begin /\ odd = 0
NewFile == /\ s.at = "read" /\ s.n = 1 /\ Len(files) < MaxFiles
           /\ \E cols \in ColSets : files' = Append(files, [cols |-> cols, rows |-> <<>>])
           /\ UNCHANGED <<opt, s, odd>>
NewRow == /\ s.n = 1 /\ s.at = "read" /\ files # <<>> /\ Len(files[Len(files)].rows) < MaxRows
          /\ \E d \in {"K", "L", "U"} : \E w \in {"right", "blank", "wrong"} :
               \E c \in IF w = "right" THEN {"LOCATION"} ELSE files[Len(files)].cols :
                 /\ files' = [files EXCEPT ![Len(files)].rows = Append(@, Row(d, c, w))]
                 /\ odd' = IF w = "right" THEN odd ELSE odd + 1
                 /\ odd' <= MaxOdd
          /\ UNCHANGED <<opt, s>>
\* flaw
HalfFill(t) == IF t.at = "fill" /\ t.have # {} THEN [t EXCEPT !.at = "check"] ELSE Step(files, M, opt, t)
Work == /\ files # <<>>
        /\ s' = IF NoFill THEN HalfFill(s) ELSE Step(files, M, opt, s)
        /\ s' # s /\ UNCHANGED <<files, opt, odd>>
Next == NewFile \/ NewRow \/ Work
Written == s.at = "written"
\* every row of every file once, in order
AllLines == s.at \in {"written", "refused", "nothing"} => [j \in DOMAIN s.tab |-> <<s.tab[j].f, s.tab[j].i>>] = Lines(files, 1)
\* the numbers of the files are not changed
Unchanged == Written => \A j \in DOMAIN s.tab : \A c \in LocCols :
               LET f == files[s.tab[j].f] x == Cell(f, f.rows[s.tab[j].i], c) IN x # Blank => s.tab[j].loc[c] = x
\* refused exactly if a file contradicts the metrology (also through its number)
Refusal == opt.check /\ opt.metro /\ s.at = "written" => ~Wrong(files, M)
NeverWithoutReason == s.at = "refused" => Wrong(files, M) /\ opt.check /\ opt.metro
Located == Written /\ opt.metro => \A j \in DOMAIN s.tab : s.tab[j].dev \in DOMAIN M => \A c \in LocCols : s.tab[j].loc[c] # Blank
Over == s.at \in {"written", "refused", "nothing"}
Emit == Over => PrintT("@@CASE " \o ToJson([check |-> opt.check, metro |-> opt.metro,
          files |-> [n \in DOMAIN files |-> [cols |-> SetToSeq(files[n].cols),
              rows |-> [i \in DOMAIN files[n].rows |-> [dev |-> files[n].rows[i].dev, loc |-> files[n].rows[i].loc, miss |-> SetToSeq(files[n].rows[i].miss)]]]]]))
=============================================================================
