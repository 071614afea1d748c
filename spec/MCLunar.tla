------------------------------ MODULE MCLunar -------------------------------
(* Every year: what is known of the Chinese calendar, and that nothing that *)
(* matters happens so near midnight that the arithmetic could be wrong.     *)
EXTENDS Lunar, FiniteSets
CONSTANTS FirstYear, LastYear
VARIABLE y
Init == y \in FirstYear .. LastYear
Next == UNCHANGED y

Near == 1500          \* 10^-6 days, about two minutes
ClearMoon(k) == NewMoonTime(k) > Near /\ NewMoonTime(k) < 1000000 - Near
(* the sun moves a 10^-5 degree in 0.88 s *)
ClearSun(n, a) == LET x == (SunAt(n) - a) % Full IN x > 150 /\ x < Full - 150
Clear == /\ \A m \in {1, 4, 5, 8, 9} : ClearMoon(MonthOf(y, m))
         /\ ClearSun(WinterSolstice(y), 27000000) /\ ClearSun(WinterSolstice(y) + 1, 27000000)
         /\ ClearSun(Qingming(y), 1500000) /\ ClearSun(Qingming(y) + 1, 1500000)
         /\ \A x \in {VernalEquinox(y), VernalEquinox(y) + 1} :
                y \in Covers("VernalEquinoxes") => ClearSun(x, 4107)
         /\ \A x \in {AutumnalEquinox(y), AutumnalEquinox(y) + 1} :
                y \in Covers("AutumnalEquinoxes") => ClearSun(x, 18004107)
         /\ LET w == WinterSolstice(y)  k == MonthAt(w)
            IN  (NewMoonDay(k) = w => ClearMoon(k)) /\ (NewMoonDay(k + 1) = w + 1 => ClearMoon(k + 1))
         /\ HasLeap(y) => \A k \in Month11(y - 1) + 1 .. LeapMonth(y) + 1 :
                              \A a \in {3000000 * j : j \in 0 .. 11} : ClearSun(NewMoonDay(k), a)

Year == /\ Month11(y) - Month11(y - 1) \in {12, 13}
        /\ Day(y, 1, 1) \in DayNum(y, 1, 21) .. DayNum(y, 2, 21)
        /\ Qingming(y) \in DayNum(y, 4, 4) .. DayNum(y, 4, 6)
        /\ HasLeap(y) => \E k \in Month11(y - 1) + 1 .. Month11(y) - 1 : NoNewSign(k)
        /\ \A k \in Month11(y - 1) .. Month11(y) : NewMoonDay(k + 1) - NewMoonDay(k) \in {29, 30}
        /\ Day(y, 5, 5) - Day(y, 4, 8) \in {26, 27, 55, 56, 57}
        /\ Day(y, 9, 9) - Day(y, 8, 15) \in {23, 24, 52, 53, 54}
        /\ Day(y, 8, 15) - Day(y, 5, 5) \in 98 .. 99 \cup 127 .. 129
        /\ y < LastYear => Day(y + 1, 1, 1) - Day(y, 1, 1) \in {353, 354, 355, 383, 384, 385}
        /\ VernalEquinox(y) \in DayNum(y, 3, 19) .. DayNum(y, 3, 22)
        /\ AutumnalEquinox(y) \in DayNum(y, 9, 21) .. DayNum(y, 9, 24)
        \* the full moon of mid-autumn is near the September equinox
        /\ Day(y, 8, 15) \in DayNum(y, 9, 7) .. DayNum(y, 10, 8)
=============================================================================
