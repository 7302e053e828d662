------------------------------- MODULE SafeTrace -------------------------------
(***************************************************************************)
(* Recorded runs. e.op "verdict": e.P, e.lim2, e.L, e.ok (0/1 by spot).    *)
(* "program": e.P, e.lim2, e.groups (spot numbers), e.size, e.rc.          *)
(* "groups": e.P, e.lim2, e.groups and e.lists (the same from the other    *)
(* file), e.inner (spots all of whose neighbours are in P), e.rc.          *)
(* Spot number 0: a device that is not among the spots.                    *)
(***************************************************************************)
EXTENDS Safe, TraceCheck
SetOf(q) == { q[i] : i \in DOMAIN q }
V(e, i) == Verdicts(e.P, i, e.lim2, e.L, e.L.s = 0, 0)
Count(gs, i) == Cardinality({ <<n, k>> \in UNION { {n} \X DOMAIN gs[n] : n \in DOMAIN gs } : gs[n][k] = i })
Grouping(P, lim2, gs, inner) ==
  LET all == UNION { SetOf(gs[n]) : n \in DOMAIN gs } IN
  (IF 0 \in all THEN {"unknown-positioner"} ELSE {})
  \union (IF \E n \in DOMAIN gs : ~Apart(P, SetOf(gs[n]) \ {0}, lim2) THEN {"too-close-in-group"} ELSE {})
  \union (IF \E n, m \in DOMAIN gs : n < m /\ SetOf(gs[n]) \intersect SetOf(gs[m]) # {} THEN {"in-two-groups"} ELSE {})
  \union (IF \E n \in DOMAIN gs : Cardinality(SetOf(gs[n])) # Len(gs[n]) THEN {"twice-in-group"} ELSE {})
  \union (IF \E p \in inner \ all : \E n \in DOMAIN gs : ~\E q \in SetOf(gs[n]) \ {0} : q # p /\ D2(P, p, q) <= lim2 THEN {"left-out"} ELSE {})
SFails(e) ==
  CASE e.op = "verdict" ->
         IF e.rc # "zero" THEN {"failed"}
         ELSE UNION { IF (e.ok[i] = 1) \in V(e, i) THEN {} ELSE IF e.ok[i] = 1 THEN {"wedged-reported-ok"} ELSE {"free-reported-wedged"} : i \in DOMAIN e.P }
    [] e.op = "program" ->
         IF e.rc # "zero" THEN {"failed"}
         ELSE UNION { LET v == V(e, i) c == Count(e.groups, i) IN
                 (IF c > 1 THEN {"listed-twice"} ELSE {})
                 \union (IF (c > 0) \in v THEN {} ELSE IF c > 0 THEN {"wedged-reported-ok"} ELSE {"not-listed"}) : i \in DOMAIN e.P }
            \union (IF Count(e.groups, 0) > 0 THEN {"unknown-positioner"} ELSE {})
            \union (IF \E n \in DOMAIN e.groups : Len(e.groups[n]) > e.size THEN {"group-too-large"} ELSE {})
            \union (IF e.names # Len(e.groups) THEN {"group-name-twice"} ELSE {})
            \union (IF e.html /\ \E i \in DOMAIN e.P : Count(e.pages, i) # Count(e.groups, i) THEN {"not-on-a-page"} ELSE {})
    [] OTHER -> IF e.rc # "zero" THEN {"failed"}
                ELSE Grouping(e.P, e.lim2, e.groups, SetOf(e.inner)) \union (IF e.lists # e.groups THEN {"files-differ"} ELSE {})
=============================================================================
