------------------------------ MODULE CalibModel ------------------------------
(***************************************************************************)
(* Histories of one positioner: moves, exposures without a move, periods   *)
(* with control disabled, notes; and what a calibration with a period and  *)
(* a window size makes of them. Emits the histories to replay.             *)
(***************************************************************************)
EXTENDS CalibReq, TLC, Json
CONSTANTS MaxRows, Gaps, Notes, Periods, Sizes, Sels, Quiet
VARIABLES rows, en
Init == rows = <<>> /\ en = TRUE
LastTms == IF rows = <<>> THEN 3 ELSE rows[Len(rows)].tms
LastD == IF rows = <<>> THEN 0 ELSE rows[Len(rows)].d
Expose(g, moves, note) ==
  /\ Len(rows) < MaxRows
  /\ rows' = Append(rows, [d |-> LastD + g, en |-> en, tms |-> LastTms + moves, note |-> note])
  /\ UNCHANGED en
Toggle == Quiet = FALSE /\ rows # <<>> /\ en' = ~en /\ UNCHANGED rows /\ rows[Len(rows)].en = en
Next == Toggle \/ \E g \in Gaps, m \in (IF Quiet THEN {1} ELSE {0, 2}), n \in Notes : Expose(g, m, n)

Params == { <<p, w, s>> : p \in Periods, w \in Sizes, s \in Sels }
Fits(x) == LET U == Used(rows, x[3]) IN IF U = {} THEN <<>> ELSE Windows(DatesOf(rows, U), x[1], x[2])
Sane == \A x \in Params :
  LET U == Used(rows, x[3])
      s == DatesOf(rows, U)
      W == Fits(x)
  IN /\ U # {} => W # <<>>
     \* all used rows differ by a move, and only wanted rows are used
     /\ \A i, j \in U : i # j => rows[i].tms # rows[j].tms
     /\ \A i \in U : rows[i].en
     \* every move of an enabled positioner is used
     /\ \A i \in DOMAIN rows : (rows[i].en /\ Selected(rows[i], x[3])) => \E j \in U : rows[j].tms = rows[i].tms
     /\ \A k \in DOMAIN W : 1 <= W[k][1] /\ W[k][1] <= W[k][2] /\ W[k][2] <= Len(s)
     \* later windows end later and do not start earlier
     /\ \A k \in 2..Len(W) : W[k][2] >= W[k - 1][2] /\ W[k][1] >= W[k - 1][1] /\ W[k] # W[k - 1]
     \* a window short of points starts with the first row and no later one exists
     /\ \A k \in DOMAIN W : W[k][2] - W[k][1] + 1 < x[2] => W[k][1] = 1 /\ k = Len(W)
Emit == Len(rows) = MaxRows => PrintT("@@CASE " \o ToJson(rows))
\* settings of the two configurations
HistNotes == {<<>>, <<"a">>, <<"a", "b">>}
HistSels == {<<>>, << <<"a">> >>, << <<"a", "b">> >>, << <<"b">>, <<"c">> >>}
NoNotes == {<<>>}
NoSels == {<<>>}
=============================================================================
