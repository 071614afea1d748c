-------------------------------- MODULE Lunar --------------------------------
(***************************************************************************)
(* The Chinese calendar from the motions of sun and moon, 1959-2049, in    *)
(* integer arithmetic: a month begins on the day (in China, UTC+8) of the  *)
(* new moon, the month with the winter solstice is the 11th, and when 13   *)
(* months lie between two of these, the first in which the sun does not    *)
(* enter a new sign repeats the number of the one before (C29).            *)
(*                                                                         *)
(* Mean motions and periodic terms after Meeus, Astronomical Algorithms,   *)
(* chapters 25 and 49, larger terms only.  Angles are in 10^-5 degrees,    *)
(* sines in 10^-4, times in 10^-6 days.  All new moons, solstices and sign *)
(* entries that matter are further from midnight than the error (well      *)
(* under two minutes): see Clear below, checked in MCLunar.                *)
(***************************************************************************)
EXTENDS DateMath

Full == 36000000
SinTable == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588,
              2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000,
              5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071,
              7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660,
              8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659,
              9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>
Sin1(x) ==   \* x in 0 .. 90 degrees
    LET q == x \div 100000
        r == x % 100000
    IN  IF q >= 90 THEN 10000 ELSE SinTable[q + 1] + ((SinTable[q + 2] - SinTable[q + 1]) * r) \div 100000
Sin2(x) == IF x > 9000000 THEN Sin1(18000000 - x) ELSE Sin1(x)
Sin(y) == LET x == y % Full IN IF x >= 18000000 THEN -Sin2(x - 18000000) ELSE Sin2(x)

(* 10^-6 days by which new moon k is after the mean one.                   *)
Term(a, x)  == (a * Sin(x)) \div 1000       \* a in 10^-5 days
Small(a, x) == (a * Sin(x)) \div 10000      \* a in 10^-6 days
MoonShift(k) ==
    LET M == (255340 + 2910535 * k + (670 * k) \div 1000) % Full
        N == (20156430 + 2581693 * k + (528 * k) \div 1000) % Full
        F == (16071080 + 3067050 * k + (284 * k) \div 1000) % Full
        O == (12477460 - 156375 * k - (588 * k) \div 1000) % Full
    IN  Term(-40720, N) + Term(17241, M) + Term(1608, 2 * N) + Term(1039, 2 * F) + Term(739, N - M)
        + Term(-514, N + M) + Term(208, 2 * M) + Term(-111, N - 2 * F) + Term(-57, N + 2 * F)
        + Term(56, 2 * N + M) + Term(-42, 3 * N) + Term(42, M + 2 * F) + Term(38, M - 2 * F)
        + Term(-24, 2 * N - M) + Term(-17, O)
        + Small(325, 29977000 + 10741 * k) + Small(165, 25188000 + 1632 * k)
        + Small(164, (25183000 + 2665189 * k) % Full) + Small(126, (34942000 + 3641248 * (k % 2) + 2 * ((3641248 * (k \div 2)) % Full)) % Full)
        + Small(110, (8466000 + 1820624 * k) % Full)

(* Day (China) of new moon k, k = 0 being that of 6 January 2000, and the  *)
(* time of day.  The earth's rotation is 64 s late in 2000, 0.6 s more     *)
(* each year.                                                              *)
NewMoonMicro(k) == 530588 * k + (861 * k) \div 1000 + 597660 + MoonShift(k)
                   - (741 + (56 * k) \div 100) + 333333
NewMoonDay(k)  == 10962 + 29 * k + NewMoonMicro(k) \div 1000000
NewMoonTime(k) == NewMoonMicro(k) % 1000000

(* Longitude of the sun at 0h China time of day n.                         *)
SunAt(n) ==
    LET d == n - 10957
        L == 28046646 + ((98564 * d) % Full) + (736 * d) \div 1000 - 82137 + 73
        M == (35752911 + ((98560 * d) % Full) + (28 * d) \div 1000 - 82133 + 73) % Full
        O == 12504000 - 5295 * d
        C == ((191460 - (482 * d) \div 36525) * Sin(M)) \div 10000 + (1999 * Sin(2 * M)) \div 10000
             + (29 * Sin(3 * M)) \div 10000
    IN  (L + C - 569 - (478 * Sin(O)) \div 10000) % Full

(* The day on which the sun reaches longitude a, sought from n on.         *)
RECURSIVE Reaches(_, _)
Before(x, a) == (a - x) % Full \in 1 .. 18000000
Reaches(n, a) == IF ~Before(SunAt(n + 1), a) THEN n ELSE Reaches(n + 1, a)
WinterSolstice(y) == Reaches(DayNum(y, 12, 18), 27000000)
Qingming(y)       == Reaches(DayNum(y, 4, 2), 1500000)

(* The number of the month in which day n lies.                            *)
MonthAt(n) == LET g == ((n - 10962) * 100) \div 2953
              IN  CHOOSE k \in g - 2 .. g + 2 : NewMoonDay(k) <= n /\ n < NewMoonDay(k + 1)
Month11(y) == MonthAt(WinterSolstice(y))
Sign(n) == SunAt(n) \div 3000000
NoNewSign(k) == Sign(NewMoonDay(k)) = Sign(NewMoonDay(k + 1))

(* Months of the Chinese year that begins in y, as far as the 10th.        *)
HasLeap(y) == Month11(y) - Month11(y - 1) = 13
LeapMonth(y) == LET a == Month11(y - 1)
                IN  CHOOSE k \in a + 1 .. a + 12 : NoNewSign(k) /\ \A h \in a + 1 .. k - 1 : ~NoNewSign(h)
MonthOf(y, m) == LET k == Month11(y - 1) + m + 1
                 IN  IF HasLeap(y) THEN (IF LeapMonth(y) <= k THEN k + 1 ELSE k) ELSE k
Day(y, m, d) == NewMoonDay(MonthOf(y, m)) + d - 1

(* Japan, an hour ahead of China: the equinox, or the Monday after when    *)
(* that is a Sunday.                                                       *)
JapanSun(n) == (SunAt(n) - 4107) % Full
RECURSIVE JapanReaches(_, _)
JapanReaches(n, a) == IF ~Before(JapanSun(n + 1), a) THEN n ELSE JapanReaches(n + 1, a)
NotSunday(x) == IF Weekday(x) = SUN THEN x + 1 ELSE x
VernalEquinox(y)   == JapanReaches(DayNum(y, 3, 17), 0)
AutumnalEquinox(y) == JapanReaches(DayNum(y, 9, 19), 18000000)

Festival(name, y) ==
    CASE name = "chinese_lunar_new_year_dates"   -> Day(y, 1, 1)
      [] name = "chinese_buddhas_birthday_dates" -> Day(y, 4, 8)
      [] name = "dragon_boat_festival_dates"     -> Day(y, 5, 5)
      [] name = "mid_autumn_festival_dates"      -> Day(y, 8, 15)
      [] name = "double_ninth_festival_dates"    -> Day(y, 9, 9)
      [] name = "qingming_festival_dates"        -> Qingming(y)
      [] name = "VernalEquinoxes"                -> NotSunday(VernalEquinox(y))
      [] name = "AutumnalEquinoxes"              -> NotSunday(AutumnalEquinox(y))
(* The years a table covers, at least.                                     *)
Covers(name) == IF name \in {"VernalEquinoxes", "AutumnalEquinoxes"} THEN 2000 .. 2021 ELSE 1960 .. 2049
=============================================================================
