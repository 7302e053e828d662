------------------------------- MODULE ProcModel -------------------------------
(***************************************************************************)
(* The program as a machine: it checks its options, reads the frames that   *)
(* are asked for, and works on one frame after the other.  At its end the   *)
(* tables and the code are those the description of the run implies.        *)
(***************************************************************************)
EXTENDS Proc, TLC, Json
CONSTANTS MaxFrames, Flaw
VARIABLES c, pc, k, tables, code
vars == <<c, pc, k, tables, code>>
Has == {"full", "few", "none"}
FrameSeqs == UNION { { [i \in 1..n |-> [name |-> nm[i], has |-> h[i]]] : nm \in { s \in [1..n -> (0..3) \union {99}] : \A i, j \in 1..n : i < j => s[i] < s[j] \/ (s[i] = 99 /\ s[j] # 99) }, h \in [1..n -> Has] } : n \in 1..MaxFrames }
One == { <<[name |-> 0, has |-> h]>> : h \in Has }
Runs == { r \in [in : {"csv", "one", "many", "other"}, out : {"csv", "txt"}, thr : BOOLEAN, sel : {"default", "named", "last", "sequence"}, named : 0..3,
                 frames : One \union { s \in FrameSeqs : Len(s) > 1 }, nomatch : BOOLEAN, min : BOOLEAN, max : BOOLEAN] :
            /\ (r.in = "many") = (Len(r.frames) > 1)
            /\ (r.in = "one" => r.sel \in {"default", "named", "last"})
            /\ (r.sel # "named" => r.named = 0)
            /\ (r.sel = "named" => \E i \in DOMAIN r.frames : r.frames[i].name = r.named \/ r.named = 3)
            /\ (r.in = "many" /\ r.sel \in {"sequence", "last"} => \E i \in DOMAIN r.frames : IsFrame(r.frames[i]))
            /\ (r.in = "other" \/ r.out = "txt" \/ r.thr => Len(r.frames) = 1 /\ ~r.min /\ ~r.max /\ r.sel \in {"default", "sequence"})
            /\ ~(r.min /\ r.max) }
Init == c \in Runs /\ pc = "options" /\ k = 1 /\ tables = {} /\ code = -1
End(x) == pc' = "end" /\ code' = x /\ UNCHANGED <<c, k, tables>>
Options == pc = "options" /\ IF c.out # "csv" THEN End(12) ELSE IF c.thr THEN End(1) ELSE pc' = "read" /\ UNCHANGED <<c, k, tables, code>>
Read == pc = "read" /\
  IF c.in = "other" THEN End(13)
  ELSE IF c.in = "many" /\ c.sel # "sequence" /\ Selected(c) = <<>> THEN End(99)
  ELSE IF c.in # "csv" /\ (\E i \in Range(Selected(c)) : c.frames[i].has = "none") THEN End(99)
  ELSE pc' = "frame" /\ UNCHANGED <<c, k, tables, code>>
Put(i) == tables' = tables \union {<<IF Flaw = "rank" /\ c.sel = "sequence" THEN k - 1 ELSE Suffix(c, i), i>>}
Frame == pc = "frame" /\
  IF k > Len(Selected(c)) THEN End(0)
  ELSE LET i == Selected(c)[k] f == c.frames[i] IN
    IF Skip(c, f) THEN IF Flaw = "stop" THEN End(0) ELSE k' = k + 1 /\ UNCHANGED <<c, pc, tables, code>>
    ELSE IF c.nomatch \/ f.has = "full" THEN Put(i) /\ k' = k + 1 /\ UNCHANGED <<c, pc, code>>
    ELSE IF Flaw = "early" THEN Put(i) /\ pc' = "end" /\ code' = 13 /\ UNCHANGED <<c, k>>
    ELSE End(13)
Next == Options \/ Read \/ Frame
\* what the property asks for
OneOutcome == pc = "end" =>
  /\ code >= 0
  /\ code = 0 => \A i \in Range(Selected(c)) : (\E t \in tables : t[2] = i) # Skip(c, c.frames[i])
  /\ \A s, t \in tables : s[1] = t[1] => s = t
  /\ \A t \in tables : c.nomatch \/ c.frames[t[2]].has = "full"
  /\ \A t \in tables : c.sel = "sequence" /\ c.in = "many" => t[1] = c.frames[t[2]].name
Agrees == pc = "end" => code = ExpectedCode(c) /\ tables = ExpectedTables(c)
EmitInv == IF pc = "end" /\ Flaw = "none" THEN PrintT("@@CASE " \o ToJson(c)) ELSE TRUE
=============================================================================
