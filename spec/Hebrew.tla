------------------------------- MODULE Hebrew --------------------------------
(***************************************************************************)
(* The Hebrew calendar month by month.  HolidayRules counts the Israeli    *)
(* holidays from Passover and the new year; here they are given by their   *)
(* Hebrew dates, and MCDates checks for every year that both agree.        *)
(***************************************************************************)
EXTENDS HolidayRules

HebLeap(hy) == (7 * hy + 1) % 19 < 7
HebYearLength(hy) == RoshHashanah(hy + 1) - RoshHashanah(hy)

(* Months from Tishri; a leap year has two of Adar.                        *)
TISHRI == 1  HESHVAN == 2  KISLEV == 3  TEVET == 4  SHEVAT == 5  ADAR1 == 6
ADAR == 7  NISAN == 8  IYAR == 9  SIVAN == 10  TAMMUZ == 11  AV == 12  ELUL == 13
HebMonthLength(hy, m) ==
    CASE m = HESHVAN -> IF HebYearLength(hy) \in {355, 385} THEN 30 ELSE 29
      [] m = KISLEV  -> IF HebYearLength(hy) \in {353, 383} THEN 29 ELSE 30
      [] m = ADAR1   -> IF HebLeap(hy) THEN 30 ELSE 0
      [] m \in {TISHRI, SHEVAT, NISAN, SIVAN, AV} -> 30
      [] m \in {TEVET, ADAR, IYAR, TAMMUZ, ELUL} -> 29
RECURSIVE HebBefore(_, _)
HebBefore(hy, m) == IF m = TISHRI THEN 0 ELSE HebBefore(hy, m - 1) + HebMonthLength(hy, m - 1)
HebDay(hy, m, d) == RoshHashanah(hy) + HebBefore(hy, m) + d - 1

(* In the Gregorian year y: Hebrew year y + 3760 until autumn.             *)
HebrewDates(y) ==
    LET h == y + 3760 IN
    /\ HebBefore(h, ELUL) + 29 = HebYearLength(h)
    /\ HebDay(h, ADAR, 14)  = PassoverIn(y) - 30
    /\ HebDay(h, NISAN, 15) = PassoverIn(y)
    /\ HebDay(h, NISAN, 21) = PassoverIn(y) + 6
    /\ HebDay(h, SIVAN, 6)  = PassoverIn(y) + 50
    /\ HebDay(h + 1, TISHRI, 1)  = RoshHashanahIn(y)
    /\ HebDay(h + 1, TISHRI, 10) = RoshHashanahIn(y) + 9
    /\ HebDay(h + 1, TISHRI, 15) = RoshHashanahIn(y) + 14
    /\ HebDay(h + 1, TISHRI, 22) = RoshHashanahIn(y) + 21
    \* 9 Av or, if that is a Sabbath, the day after
    /\ FastDay(y) \in {HebDay(h, AV, 9), HebDay(h, AV, 10)} /\ Weekday(FastDay(y)) # SAT
    \* Memorial Day and Independence Day: 4 and 5 Iyar, moved so that neither
    \* they nor their eves touch the Sabbath (the latter since 2004)
    /\ MemorialDay(y) \in {HebDay(h, IYAR, d) : d \in {2, 3, 4, 5}}
    /\ {Weekday(MemorialDay(y)), Weekday(MemorialDay(y) + 1)} \cap {FRI, SAT} = {}
    /\ y >= 2004 => Weekday(MemorialDay(y) - 1) # SAT
    /\ (y < 2004 \/ Weekday(HebDay(h, IYAR, 4)) # SUN) => MemorialDay(y) <= HebDay(h, IYAR, 4)
=============================================================================
