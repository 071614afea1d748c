------------------------------ MODULE MCDates -------------------------------
(***************************************************************************)
(* Theorems about DateMath and HolidayRules: one state per year.           *)
(***************************************************************************)
EXTENDS Hebrew

CONSTANTS FirstYear, LastYear

VARIABLE y
Stride == 17
Init == y \in {n \in FirstYear .. LastYear : (n - FirstYear) % Stride = 0}
Next == y < LastYear /\ (y + 1 - FirstYear) % Stride # 0 /\ y' = y + 1
Spec == Init /\ [][Next]_y

Days == YearDays(y)

(* Day numbers and civil dates are inverse, consecutive and of the right   *)
(* number; the calendar repeats every 400 years.                           *)
CivilInverse == \A n \in Days : LET c == Civil(n) IN c[1] = y /\ DayNum(c[1], c[2], c[3]) = n
MonthsTile   == \A m \in 1 .. 12 : DayNum(y, m, MonthLen(y, m)) + 1
                                   = IF m = 12 THEN DayNum(y + 1, 1, 1) ELSE DayNum(y, m + 1, 1)
YearLength   == Cardinality(Days) = IF IsLeap(y) THEN 366 ELSE 365
Period400    == DayNum(y + 400, 1, 1) - DayNum(y, 1, 1) = 146097
WeekdayStep  == \A n \in Days : Weekday(n + 1) = (Weekday(n) + 1) % 7

Nearest == \A n \in Days, wd \in 0 .. 6 :
    /\ Weekday(OnOrAfter(n, wd)) = wd /\ OnOrAfter(n, wd) \in n .. n + 6
    /\ Weekday(OnOrBefore(n, wd)) = wd /\ OnOrBefore(n, wd) \in n - 6 .. n

(* Easter is a Sunday from 22 March to 25 April.                           *)
EasterSunday == /\ Weekday(Easter(y)) = SUN
                /\ Easter(y) \in DayNum(y, 3, 22) .. DayNum(y, 4, 25)

(* The Hebrew new year is never a Sunday, Wednesday or Friday, its years   *)
(* have one of six lengths, and it falls in September or October.          *)
HebrewYear == /\ Weekday(RoshHashanahIn(y)) \notin {SUN, WED, FRI}
              /\ RoshHashanahIn(y + 1) - RoshHashanahIn(y) \in {353, 354, 355, 383, 384, 385}
              /\ Civil(RoshHashanahIn(y))[1] = y /\ Civil(RoshHashanahIn(y))[2] \in {9, 10}
              /\ Civil(PassoverIn(y))[1] = y /\ Civil(PassoverIn(y))[2] \in {3, 4}
              /\ Weekday(PassoverIn(y)) \notin {MON, WED, FRI}
              /\ Weekday(MemorialDay(y)) \notin {FRI, SAT, THU}

HebrewMonths == HebrewDates(y)

(* The general observances give a weekday, are monotonic and stay near.    *)
Moves == <<"nearest_workday", "next_monday", "weekend_to_monday", "previous_friday", "previous_workday",
           "next_monday_or_tuesday">>
Movers == \A i \in DOMAIN Moves : \A n \in Days :
    LET D == Observe(Moves[i], n) IN
    \A x \in D : /\ Weekday(x) \notin {SAT, SUN}
                 /\ x \in n - 3 .. n + 2
                 /\ (Moves[i] \notin {"previous_workday", "next_monday_or_tuesday"} /\ Weekday(n) \notin {SAT, SUN}) => x = n

(* Offsets with a weekday land on it, in the month they should.            *)
Offsets == \A m \in 1 .. 12, wd \in 0 .. 6 :
    LET first == DayNum(y, m, 1)
        last  == DayNum(y, m, MonthLen(y, m))
    IN  /\ \A n \in 1 .. 4 : LET x == NthWeekday(first, wd, n) IN
              /\ x \in first .. last /\ Weekday(x) = wd
              /\ Cardinality({z \in first .. x : Weekday(z) = wd}) = n
        /\ LET x == NthWeekday(last, wd, -1) IN
              x \in first .. last /\ Weekday(x) = wd /\ x + 7 > last
        /\ ApplyOffset(first, <<"weekof", 1, wd>>) = NthWeekday(first, wd, 2)
        /\ \A x \in {first, first + 9, last} :
              LET n == ApplyOffset(x, <<"lastwd", wd>>) IN
              n > x /\ Weekday(n) = wd /\ Civil(n)[2] # Civil(n + 7)[2]

(* A rule's dates in a range do not depend on the range.                   *)
Rule(m, d, off, obs, dow, from, to) ==
    [m |-> m, d |-> d, off |-> off, obs |-> obs, dow |-> dow, from |-> from, to |-> to, year |-> 0]
SampleRules ==
    {Rule(1, 1, <<>>, o, {}, NegInf, PosInf) : o \in {"", "nearest_workday", "previous_friday", "previous_workday", "next_monday"}}
    \cup {Rule(12, 31, <<>>, o, {}, NegInf, PosInf) : o \in {"", "next_monday", "weekend_to_monday", "next_monday_or_tuesday"}}
    \cup {Rule(11, 2, <<>>, "tuesday_every_four_years", {}, NegInf, PosInf),
          Rule(1, 1, <<<<"easter">>, <<"days", -2>>>>, "", {}, NegInf, PosInf),
          Rule(12, 28, <<<<"days", 5>>>>, "", {}, NegInf, PosInf),
          Rule(1, 3, <<<<"days", -5>>>>, "", {}, NegInf, PosInf),
          Rule(12, 25, <<>>, "", {MON, FRI}, DayNum(y, 6, 1), DayNum(y + 1, 12, 25)),
          Rule(12, 30, <<<<"nth", MON, 1>>>>, "", {}, NegInf, PosInf)}
Cuts == {DayNum(y, 1, 1) - 4, DayNum(y, 1, 1), DayNum(y, 1, 3), DayNum(y, 6, 30), DayNum(y, 12, 26),
         DayNum(y, 12, 31), DayNum(y + 1, 1, 2)}
RangeFree == y >= 1975 /\ y <= 2190 => \A r \in SampleRules : \A a, b \in Cuts :
    a <= b => RulesDays(<<r>>, a, b)
              = RulesDays(<<r>>, DayNum(y - 5, 1, 1), DayNum(y + 5, 12, 31)) \cap (a .. b)
=============================================================================
