-------------------------------- MODULE Circle --------------------------------
(***************************************************************************)
(* Circles through measured points.  Lengths are micrometers, points are   *)
(* relative to the true centre <<x, y>>.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == { s[i] : i \in DOMAIN s }
\* integer square root: bisection between a and b, a^2 <= n < b^2
RECURSIVE Root(_, _, _)
Root(n, a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF m * m <= n THEN Root(n, m, b) ELSE Root(n, a, m)
Dist(u, v) == Root((u[1] - v[1]) * (u[1] - v[1]) + (u[2] - v[2]) * (u[2] - v[2]), 0, 46000)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + Sum(f, S \ {i})
\* radii the instrument can have: an arm of 3 mm or two of them, with margins
Smallest == 1000
Largest == 5000
(***************************************************************************)
(* Least squares: centre c and radius R are stationary for the sum of      *)
(* (distance - R)^2 over the points in K: R is the mean distance and the   *)
(* residuals along both axes cancel.  Rounding of points, centre and       *)
(* radius to 1 um changes each residual by less than 2.5.                  *)
(***************************************************************************)
Stationary(pts, K, c, R) ==
  LET n == Cardinality(K)
      d == [i \in K |-> Dist(pts[i], c)]
      gx == [i \in K |-> IF d[i] = 0 THEN 0 ELSE ((d[i] - R) * (pts[i][1] - c[1])) \div d[i]]
      gy == [i \in K |-> IF d[i] = 0 THEN 0 ELSE ((d[i] - R) * (pts[i][2] - c[2])) \div d[i]]
  IN /\ Abs(Sum(d, K) - n * R) <= 2 * n
     /\ Abs(Sum(gx, K)) <= 3 * n /\ Abs(Sum(gy, K)) <= 3 * n
\* so many outliers can never spoil half of the triplets of points (see CircleModel)
Guaranteed(n, k) == n >= 3 /\ 6 * k < n
(***************************************************************************)
(* Table of circle centres: what a device did in each exposure is one of   *)
(* "once" (measured), "twice" (two rows claim to be it), "absent", "zero"  *)
(* (a row without coordinates).  Only measurements count.                  *)
(***************************************************************************)
MinMeasurements == 6
Times(h, w) == Cardinality({ i \in DOMAIN h : h[i] = w })
\* device d = [kind, h, fits]: kind "pos" or "fid"; moves: it moved by more than 1 mm rms;
\* fits: radius possible and centre near the expected one
Listed(d) ==
  LET real == Times(d.h, "once") IN
  IF real + Times(d.h, "zero") < MinMeasurements THEN {FALSE}
  ELSE IF ~d.fits THEN {FALSE}
  ELSE IF d.kind = "pos" /\ ~d.moves THEN {FALSE}
  ELSE IF real >= MinMeasurements THEN {TRUE} ELSE {TRUE, FALSE}
===============================================================================
