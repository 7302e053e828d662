----------------------------- MODULE AngleModel ------------------------------
(***************************************************************************)
(* Directed rotation of one axis from angle s to angle f (millidegrees).   *)
(* dir = 1 counter-clockwise, -1 clockwise, 0 unspecified.  The model is   *)
(* the documented rule; the invariants are what a user relies on.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Step, Span
VARIABLES s, f, dir, du, pc

Turn == 360000
AbsA(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

Delta(a, b, d) ==
  LET nat == b - a
      way == IF d = 0 THEN Sgn(nat) ELSE d
  IN  IF nat % Turn = 0 THEN AbsA(nat) * way
      ELSE IF way = Sgn(nat) THEN nat
      ELSE IF way = 1 THEN nat % Turn
      ELSE -((-nat) % Turn)

Angles == { k * Step : k \in -Span..Span }
Init == s \in Angles /\ f \in Angles /\ dir \in {-1, 0, 1} /\ du = 0 /\ pc = "ask"
Move == pc = "ask" /\ du' = Delta(s, f, dir) /\ pc' = "done" /\ UNCHANGED <<s, f, dir>>
Next == Move

\* ends at the right place on the circle
Congruent == pc = "done" => (s + du - f) % Turn = 0
\* turns the way it was told
Directed == pc = "done" => (dir # 0 => Sgn(du) \in {0, dir}) /\ (dir = 0 => du = f - s)
\* the natural number of turns is kept when the direction agrees
Natural == pc = "done" => (Sgn(f - s) = dir => du = f - s)
\* otherwise at most one turn, except that whole turns stay whole turns
Bounded == pc = "done" => (Sgn(f - s) # dir /\ dir # 0 =>
              IF (f - s) % Turn = 0 THEN AbsA(du) = AbsA(f - s) ELSE AbsA(du) < Turn)
\* going back the other way undoes it
Undo == pc = "done" => Delta(f, s, -dir) = -du
=============================================================================
