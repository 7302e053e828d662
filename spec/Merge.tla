-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merging the calibration files of single positioners into one table      *)
(* (bin/merge_posparams) and cross-checking locations with the metrology.  *)
(* A file: [cols, rows]: cols the location columns it has; a row           *)
(* [dev, loc, miss]: device, a function from the location columns to       *)
(* numbers, set of location columns whose cell is blank.                   *)
(* M: function from devices known to the metrology to their locations      *)
(* (functions from all four location columns to numbers).                  *)
(* opt: [check, metro].                                                    *)
(* A cell is a number, or Blank.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LocCols == {"LOCATION", "DEVICE_LOC", "PETAL_LOC", "PETAL_ID"}
Blank == -999
Cell(f, r, c) == IF c \in f.cols /\ c \notin r.miss THEN r.loc[c] ELSE Blank

\* ---- what the program does, step by step
\* s: [at, n, tab, have]: stage, next file, rows so far [dev, f, i, loc], columns
Begin == [at |-> "read", n |-> 1, tab |-> <<>>, have |-> {}]
Read(F, s) ==
  IF s.n > Len(F) THEN [s EXCEPT !.at = "number"]
  ELSE LET f == F[s.n] IN
       [s EXCEPT !.n = s.n + 1,
                 !.tab = s.tab \o [i \in DOMAIN f.rows |-> [dev |-> f.rows[i].dev, f |-> s.n, i |-> i,
                                                           loc |-> [c \in LocCols |-> Cell(f, f.rows[i], c)]]],
                 !.have = s.have \union (IF f.rows = <<>> THEN {} ELSE f.cols)]
\* a location number follows from the petal and the device within it
Number(s) ==
  LET make == "LOCATION" \notin s.have /\ {"PETAL_LOC", "DEVICE_LOC"} \subseteq s.have
  IN [s EXCEPT !.at = "fill",
               !.have = IF make THEN s.have \union {"LOCATION"} ELSE s.have,
               !.tab = [j \in DOMAIN s.tab |-> IF make /\ s.tab[j].loc["PETAL_LOC"] # Blank /\ s.tab[j].loc["DEVICE_LOC"] # Blank
                                               THEN [s.tab[j] EXCEPT !.loc["LOCATION"] = 1000 * s.tab[j].loc["PETAL_LOC"] + s.tab[j].loc["DEVICE_LOC"]]
                                               ELSE s.tab[j]]]
Fill(M, opt, s) ==
  IF ~opt.metro THEN [s EXCEPT !.at = "check"]
  ELSE [s EXCEPT !.at = "check", !.have = LocCols,
                 !.tab = [j \in DOMAIN s.tab |-> IF s.tab[j].dev \in DOMAIN M
                            THEN [s.tab[j] EXCEPT !.loc = [c \in LocCols |-> IF s.tab[j].loc[c] = Blank THEN M[s.tab[j].dev][c] ELSE s.tab[j].loc[c]]]
                            ELSE s.tab[j]]]
Contradicts(M, row) == row.dev \in DOMAIN M /\ \E c \in LocCols : row.loc[c] # M[row.dev][c]
CheckLoc(M, opt, s) ==
  IF s.tab = <<>> THEN [s EXCEPT !.at = "nothing"]
  ELSE IF opt.check /\ opt.metro /\ \E j \in DOMAIN s.tab : Contradicts(M, s.tab[j]) THEN [s EXCEPT !.at = "refused"]
  ELSE [s EXCEPT !.at = "written"]
Step(F, M, opt, s) ==
  CASE s.at = "read" -> Read(F, s) [] s.at = "number" -> Number(s) [] s.at = "fill" -> Fill(M, opt, s) [] s.at = "check" -> CheckLoc(M, opt, s) [] OTHER -> s
RECURSIVE Finish(_, _, _, _)
Finish(F, M, opt, s) == IF s.at \in {"refused", "written", "nothing"} THEN s ELSE Finish(F, M, opt, Step(F, M, opt, s))
Outcome(F, M, opt) == Finish(F, M, opt, Begin)

\* ---- what it is for
RECURSIVE Lines(_, _)
Lines(F, n) == IF n > Len(F) THEN <<>> ELSE [i \in DOMAIN F[n].rows |-> <<n, i>>] \o Lines(F, n + 1)
\* a location column of a file contradicts the metrology
Wrong(F, M) == \E n \in DOMAIN F : \E i \in DOMAIN F[n].rows :
                 LET r == F[n].rows[i] IN r.dev \in DOMAIN M /\ \E c \in LocCols : Cell(F[n], r, c) \notin {Blank, M[r.dev][c]}
=============================================================================
