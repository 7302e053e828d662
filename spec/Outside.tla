-------------------------------- MODULE Outside --------------------------------
(***************************************************************************)
(* Calls of an external program through files: what a call hands over,     *)
(* what the program can do, what the call may return.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == { s[i] : i \in DOMAIN s }
\* what the program does: works; ends with an error; ends well without writing anything;
\* an old version that first refuses an option it does not know; is not installed
Programs == {"works", "fails", "silent", "old", "missing"}
MayAnswer(p) == p \in {"works", "old"}
===============================================================================
