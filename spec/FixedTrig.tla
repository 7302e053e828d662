------------------------------ MODULE FixedTrig ------------------------------
(***************************************************************************)
(* Trigonometry in integers, so that the kinematic specifications are      *)
(* executable in TLC: angles are millidegrees, sines and cosines are       *)
(* scaled by 100000.  Sine of an angle = table value at the nearest whole  *)
(* degree, corrected by a second order expansion; the error is below 2     *)
(* units (0.00002).                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Scale == 100000

\* round(1e5 * sin(k degrees)), k = 0..90
SinTab == <<
  0, 1745, 3490, 5234, 6976, 8716, 10453, 12187, 13917, 15643,
  17365, 19081, 20791, 22495, 24192, 25882, 27564, 29237, 30902, 32557,
  34202, 35837, 37461, 39073, 40674, 42262, 43837, 45399, 46947, 48481,
  50000, 51504, 52992, 54464, 55919, 57358, 58779, 60182, 61566, 62932,
  64279, 65606, 66913, 68200, 69466, 70711, 71934, 73135, 74314, 75471,
  76604, 77715, 78801, 79864, 80902, 81915, 82904, 83867, 84805, 85717,
  86603, 87462, 88295, 89101, 89879, 90631, 91355, 92050, 92718, 93358,
  93969, 94552, 95106, 95630, 96126, 96593, 97030, 97437, 97815, 98163,
  98481, 98769, 99027, 99255, 99452, 99619, 99756, 99863, 99939, 99985,
  100000
>>

\* integer division rounding to nearest
RDiv(a, b) == (2 * a + b) \div (2 * b)

Sin0To90(k) == SinTab[k + 1]
\* sine of a whole number of degrees, any integer
SinDeg(d) ==
  LET k == d % 360 IN
    IF k <= 90 THEN Sin0To90(k)
    ELSE IF k <= 180 THEN Sin0To90(180 - k)
    ELSE IF k <= 270 THEN -Sin0To90(k - 180)
    ELSE -Sin0To90(360 - k)
CosDeg(d) == SinDeg(d + 90)

\* millidegrees -> scaled sine.  e is in [-500, 500] millidegrees;
\* e millidegrees = e * 1.7453293e-5 rad
Sin(m) ==
  LET d == RDiv(m, 1000)
      e == m - 1000 * d
      lin == RDiv(RDiv(CosDeg(d) * e, 1000) * 17453, 1000000)
      sec == RDiv((SinDeg(d) \div 100) * ((e * e) \div 100), 65657)   \* e^2/2 in rad: 1.523e-10 per mdeg^2
  IN  SinDeg(d) + lin - RDiv(sec, 10)
Cos(m) == Sin(m + 90000)
=============================================================================
