---------------------------- MODULE AssignPrint -----------------------------
(***************************************************************************)
(* What desi_print_ambigous_groups printed, alone: pairs <<p, s>> with the *)
(* number of spots of p. There is no record of the assignment itself, so   *)
(* the maximum matching is built here by augmentation.                     *)
(***************************************************************************)
EXTENDS AssignReq, TraceCheck
Range(f) == { f[i] : i \in DOMAIN f }
Sq(x) == x * x
\* the pairs in some maximum matching: edges of a maximum matching M and the
\* edges that replace them. Built greedily with augmentation:
\* search: breadth first from one free spot; parent = spot each positioner was
\* reached from
RECURSIVE Search(_, _, _, _, _)
Search(E, M, S, par, P) ==
  LET new == { f \in E : f[2] \in S /\ f[1] \notin DOMAIN par }
      np == { f[1] : f \in new }
      par2 == par @@ [p \in np |-> (CHOOSE f \in new : f[1] = p)[2]]
      mates == { e[2] : e \in { f \in M : f[1] \in np } }
  IN IF np = {} THEN <<FALSE, par>>
     ELSE IF np \ PosOf(M) # {} THEN <<TRUE, par2>>
     ELSE Search(E, M, mates, par2, P)
RECURSIVE Flip(_, _, _)
Flip(M, par, p) == \* give p the spot it was reached from, then follow that spot's old owner
  LET s == par[p]
      old == { e \in M : e[2] = s }
  IN IF old = {} THEN M \union {<<p, s>>}
     ELSE LET o == CHOOSE e \in old : TRUE IN Flip((M \ {o}) \union {<<p, s>>}, par, o[1])
RECURSIVE Grow(_, _, _, _)
Grow(E, M, todo, P) ==
  IF todo = {} THEN M
  ELSE LET s == CHOOSE x \in todo : TRUE
           r == Search(E, M, {s}, <<>>, P)
       IN IF r[1] THEN Grow(E, Flip(M, r[2], CHOOSE p \in DOMAIN r[2] : p \notin PosOf(M)), todo \ {s}, P)
          ELSE Grow(E, M, todo \ {s}, P)
PrFails(e) ==
  IF "exc" \in DOMAIN e THEN {"raised"}
  ELSE
  LET P == DOMAIN e.centre
      S == DOMAIN e.spots
      E == { <<i, j>> \in P \X S :
               LET dx == e.centre[i][1] - e.spots[j][1]
                   dy == e.centre[i][2] - e.spots[j][2]
               IN dx < 610 /\ dx > -610 /\ dy < 610 /\ dy > -610 /\ Sq(dx) + Sq(dy) < Sq(610) }
      M == Grow(E, {}, S, P)
      pr == { <<r[1] + 1, r[2] + 1>> : r \in Range(e.printed) }
      \* an edge all maximum matchings hold
      sure == { f \in M : ~Avoidable(E, M, P, S, f) }
  IN (IF ~IsMatching(M) \/ ~IsMaximum(E, M, P, S) THEN {"oracle"} ELSE {})
     \union (IF ~(pr \subseteq E) THEN {"out-of-reach"} ELSE {})
     \union (IF ~(sure \subseteq pr) THEN {"certain-pair-missing"} ELSE {})
     \union (IF \E f \in sure : \E g \in pr : g # f /\ (g[1] = f[1] \/ g[2] = f[2]) THEN {"false-ambiguity"} ELSE {})
     \union (IF Cardinality({ g[2] : g \in pr }) < Cardinality(M) THEN {"not-as-many-as-possible"} ELSE {})
     \union (IF \E r \in Range(e.printed) : r[3] # Cardinality({ f \in pr : f[1] = r[1] + 1 }) THEN {"wrong-number-printed"} ELSE {})
=============================================================================
