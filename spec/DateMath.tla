------------------------------ MODULE DateMath ------------------------------
(***************************************************************************)
(* Civil-date arithmetic on day numbers (0 = 1970-01-01), weekdays         *)
(* (0 = Monday), Easter and the Hebrew new year.  Everything the holiday   *)
(* rules need, defined from first principles: no library is trusted here.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MON == 0  TUE == 1  WED == 2  THU == 3  FRI == 4  SAT == 5  SUN == 6

DayNum(y, m, d) ==
    LET yy  == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp  == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN  era * 146097 + doe - 719468

(* <<year, month, day>> of a day number *)
Civil(n) ==
    LET z   == n + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp  == (5 * doy + 2) \div 153
        d   == doy - (153 * mp + 2) \div 5 + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN  <<y, m, d>>

YearOf(n) == Civil(n)[1]
Weekday(n) == (n + 3) % 7

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                    [] OTHER -> 31
YearDays(y) == DayNum(y, 1, 1) .. DayNum(y, 12, 31)

(* first given weekday on or after / on or before a day *)
OnOrAfter(n, wd)  == n + ((wd - Weekday(n)) % 7)
OnOrBefore(n, wd) == n - ((Weekday(n) - wd) % 7)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Gregorian (Western) Easter Sunday *)
Easter(y) ==
    LET a == y % 19
        b == y \div 100
        c == y % 100
        d == b \div 4
        e == b % 4
        f == (b + 8) \div 25
        g == (b - f + 1) \div 3
        h == (19 * a + b - d - g + 15) % 30
        i == c \div 4
        k == c % 4
        l == (32 + 2 * e + 2 * i - h - k) % 7
        m == (a + 11 * h + 22 * l) \div 451
        p == h + l - 7 * m + 114
    IN  DayNum(y, p \div 31, (p % 31) + 1)

(* 1 Tishri (Rosh Hashanah) of Hebrew year hy, as a day number.            *)
HebElapsed(hy) ==
    LET months == (235 * hy - 234) \div 19
        parts  == 12084 + 13753 * months
        day    == 29 * months + parts \div 25920
    IN  IF (3 * (day + 1)) % 7 < 3 THEN day + 1 ELSE day
HebCorrection(hy) ==
    LET ny0 == HebElapsed(hy - 1)
        ny1 == HebElapsed(hy)
        ny2 == HebElapsed(hy + 1)
    IN  IF ny2 - ny1 = 356 THEN 2 ELSE IF ny1 - ny0 = 382 THEN 1 ELSE 0
RoshHashanah(hy) == HebElapsed(hy) + HebCorrection(hy) - 1373428 - 719162
(* Rosh Hashanah that falls in Gregorian year y *)
RoshHashanahIn(y) == RoshHashanah(y + 3761)
(* 15 Nisan is always 163 days before the following 1 Tishri *)
PassoverIn(y) == RoshHashanahIn(y) - 163
=============================================================================
