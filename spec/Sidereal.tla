-------------------------------- MODULE Sidereal --------------------------------
(***************************************************************************)
(* Local sidereal time of the telescope in millidegrees, from the date of  *)
(* an exposure whose sidereal time the telescope reported: it advances by  *)
(* 360.98564736629 degrees per day.  A date is days and 1/100000 of days   *)
(* after that exposure.                                                    *)
(***************************************************************************)
EXTENDS Integers, TraceCheck
Abs(x) == IF x < 0 THEN -x ELSE x
\* exposure 23498: MJD 58789.135177, 338.01969 degrees
Reported == 338020
\* 985.64736629 millidegrees more than a turn per day
PerDays(d) == 985 * d + (64737 * d + 50000) \div 100000
\* 3.6098564736629 millidegrees per 1/100000 of a day
PerParts(f) == 3 * f + (6098 * f + 5000) \div 10000 + (5647 * f + 50000000) \div 100000000
At(d, f) == (Reported + PerDays(d) + PerParts(f)) % 360000
Turn(a, b) == LET d == (a - b) % 360000 IN IF d > 180000 THEN 360000 - d ELSE d
\* exposure 41433 of January 2020 is where the law puts it: MJD 58865.540489, 199.24149 degrees
ASSUME Turn(At(76, 40531), 199241) <= 3
TFails(e) ==
  IF e.rc # "ok" THEN {"failed"}
  ELSE (IF Turn(At(e.d, e.f), e.lst) <= 3 THEN {} ELSE {"wrong-sidereal-time"})
    \union (IF e.lst >= 0 /\ e.lst <= 360000 THEN {} ELSE {"not-in-one-turn"})
===============================================================================
