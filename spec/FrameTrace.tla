----------------------------- MODULE FrameTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded walks (see FrameGraph).  State: the first value *)
(* seen in each system.  A step event carries the system reached, the      *)
(* value there (integers), the tolerance and the modulus of each component *)
(* (0 = not periodic).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceRuns

AbsI(x) == IF x < 0 THEN -x ELSE x
Dist(a, b, m) == IF m = 0 THEN AbsI(a - b)
                 ELSE LET d == (a - b) % m IN IF d < m - d THEN d ELSE m - d

Same(v, w, tol, mod) ==
  /\ Len(v) = Len(w)
  /\ \A i \in 1..Len(v) : v[i] < 1900000000 /\ w[i] < 1900000000
                          /\ Dist(v[i], w[i], mod[i]) <= tol[i]

FStart(e) == e.sys :> e.v
FFollow(s, e) == IF "v" \in DOMAIN e /\ e.sys \notin DOMAIN s THEN s @@ (e.sys :> e.v) ELSE s
FFails(s, e) ==
  IF "exc" \in DOMAIN e THEN {"raised"}
  ELSE (IF \A i \in 1..Len(e.v) : e.v[i] < 1900000000 THEN {} ELSE {"not-finite"})
       \union
       (IF e.sys \in DOMAIN s /\ ~Same(s[e.sys], e.v, e.tol, e.mod)
        THEN {"path-dependent"} ELSE {})
=============================================================================
