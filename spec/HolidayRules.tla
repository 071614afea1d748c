---------------------------- MODULE HolidayRules ----------------------------
(***************************************************************************)
(* Recurring holidays.  A rule names a reference date each year, how the   *)
(* actual date is derived from it (offsets, or an observance), on which    *)
(* weekdays it counts, and between which dates it is in force.             *)
(*                                                                         *)
(*   m, d   reference month and day                                        *)
(*   off    sequence of offset steps, e.g. <<"easter">>, <<"days", -2>>    *)
(*   obs    name of an observance (see Observe), "" for none               *)
(*   dow    weekdays on which the result counts (empty: every day)         *)
(*   from, to   first and last date on which the rule is in force          *)
(*   year   0, or the single year of a dated holiday                       *)
(***************************************************************************)
EXTENDS DateMath, TLC

NegInf == -1000000
PosInf ==  1000000

(* The rule engine works over this horizon: recurring holidays before 1970 *)
(* (or after 2200) are not observed by any calendar.                       *)
Horizon == <<0, DayNum(2200, 12, 31)>>

-----------------------------------------------------------------------------
(* Offsets.                                                                *)

(* n-th given weekday counted from the day itself (n > 0 forwards,         *)
(* n < 0 backwards); the day itself counts.                                *)
NthWeekday(x, wd, n) == IF n > 0 THEN OnOrAfter(x, wd) + 7 * (n - 1)
                        ELSE OnOrBefore(x, wd) - 7 * (-n - 1)

LastOfMonth(y, m, wd) == OnOrBefore(DayNum(y, m, MonthLen(y, m)), wd)
WeekOfMonth(y, m, wk, wd) == OnOrAfter(DayNum(y, m, 1), wd) + 7 * wk
NextMonth(y, m) == IF m = 12 THEN <<y + 1, 1>> ELSE <<y, m + 1>>

(* Israeli dates: moved so that no observance touches the Sabbath.         *)
MemorialDay(y) ==
    LET x == PassoverIn(y) + 19        \* 4 Iyar
    IN  CASE Weekday(x) = THU -> x - 1
          [] Weekday(x) = FRI -> x - 2
          \* since 2004, so that preparations do not begin on the Sabbath
          [] Weekday(x) = SUN /\ y >= 2004 -> x + 1
          [] OTHER -> x
FastDay(y) == LET x == PassoverIn(y) + 112 IN IF Weekday(x) = SAT THEN x + 1 ELSE x

ApplyOffset(x, o) ==
    LET c == Civil(x) IN
    CASE o[1] = "days"   -> x + o[2]
      [] o[1] = "nth"    -> NthWeekday(x, o[2], o[3])
      [] o[1] = "easter" -> Easter(c[1])
      [] o[1] = "lastwd" ->          \* next last-such-weekday-of-a-month after x
            LET t == LastOfMonth(c[1], c[2], o[2])
                n == NextMonth(c[1], c[2])
            IN  IF x < t THEN t ELSE LastOfMonth(n[1], n[2], o[2])
      [] o[1] = "weekof" ->          \* next (week, weekday) of a month after x
            LET t == WeekOfMonth(c[1], c[2], o[2], o[3])
                n == NextMonth(c[1], c[2])
            IN  IF x < t THEN t ELSE WeekOfMonth(n[1], n[2], o[2], o[3])
      [] o[1] = "purim"        -> PassoverIn(c[1]) - 30
      [] o[1] = "passover"     -> PassoverIn(c[1])
      [] o[1] = "memorial"     -> MemorialDay(c[1])
      [] o[1] = "pentecost"    -> PassoverIn(c[1]) + 50
      [] o[1] = "fastday"      -> FastDay(c[1])
      [] o[1] = "roshhashanah" -> RoshHashanahIn(c[1])
      [] o[1] = "yomkippur"    -> RoshHashanahIn(c[1]) + 9
      [] o[1] = "sukkoth"      -> RoshHashanahIn(c[1]) + 14
      [] o[1] = "simchattorah" -> RoshHashanahIn(c[1]) + 21

RECURSIVE ApplyOffsets(_, _)
ApplyOffsets(x, os) == IF os = <<>> THEN x
                       ELSE ApplyOffsets(ApplyOffset(x, Head(os)), Tail(os))

-----------------------------------------------------------------------------
(* Observances: the set of dates observed for a holiday falling on x.      *)

NearestWorkday(x) == CASE Weekday(x) = SAT -> x - 1 [] Weekday(x) = SUN -> x + 1 [] OTHER -> x
WeekendToMonday(x) == CASE Weekday(x) = SAT -> x + 2 [] Weekday(x) = SUN -> x + 1 [] OTHER -> x
SundayToMonday(x) == IF Weekday(x) = SUN THEN x + 1 ELSE x
PreviousFriday(x) == CASE Weekday(x) = SAT -> x - 1 [] Weekday(x) = SUN -> x - 2 [] OTHER -> x
PreviousWorkday(x) == LET p == x - 1 IN PreviousFriday(p)
NextMondayOrTuesday(x) == CASE Weekday(x) \in {SAT, SUN} -> x + 2 [] Weekday(x) = MON -> x + 1 [] OTHER -> x

Except(x, years, S) == IF YearOf(x) \in years THEN {} ELSE S

Observe(obs, x) ==
    LET w == Weekday(x)
        y == YearOf(x)
    IN
    CASE obs = "nearest_workday"     -> {NearestWorkday(x)}
      [] obs = "next_monday"         -> {WeekendToMonday(x)}
      [] obs = "weekend_to_monday"   -> {WeekendToMonday(x)}
      [] obs = "sunday_to_monday"    -> {SundayToMonday(x)}
      [] obs = "previous_friday"     -> {PreviousFriday(x)}
      [] obs = "previous_workday"    -> {PreviousWorkday(x)}
      [] obs = "next_monday_or_tuesday" -> {NextMondayOrTuesday(x)}
      [] obs = "monday_on_or_after"  -> {OnOrAfter(x, MON)}
      \* Budapest: a Tuesday or Thursday holiday makes a four-day weekend
      [] obs = "four_day_weekend"    -> {x} \cup (IF w = TUE THEN {x - 1} ELSE {})
                                            \cup (IF w = THU THEN {x + 1} ELSE {})
      \* Taipei: the same and weekend substitution, since 2014
      [] obs = "taiwan_makeup"       ->
            {x} \cup {e \in (IF w = TUE THEN {x - 1} ELSE {}) \cup (IF w = THU THEN {x + 1} ELSE {})
                            \cup (IF w = SUN THEN {x + 1} ELSE {}) \cup (IF w = SAT THEN {x - 1} ELSE {})
                         : YearOf(e) > 2013}
      [] obs = "only_friday"         -> IF w = FRI THEN {x} ELSE {}
      \* Buenos Aires
      [] obs = "cultural_diversity"  ->
            LET n == IF w \in {MON, TUE, WED} THEN x - w ELSE OnOrAfter(x, MON) IN Except(n, {2012}, {n})
      [] obs = "not_2018"            -> Except(x, {2018}, {x})
      [] obs = "not_2010"            -> Except(x, {2010}, {x})
      [] obs = "not_2004"            -> Except(x, {2004}, {x})
      \* Chicago (CBOE futures): Good Friday is a session when Christmas or
      \* New Year's Day of that year is observed on a Friday
      [] obs = "good_friday_unless_christmas_nye_friday" ->
            IF Weekday(NearestWorkday(DayNum(y, 12, 25))) = FRI
               \/ Weekday(SundayToMonday(DayNum(y, 1, 1))) = FRI
            THEN {} ELSE {Easter(y) - 2}
      [] obs = "queens_birthday"     ->
            IF y \in {1974, 1981} THEN {OnOrAfter(x, SUN)}
            ELSE IF y < 1983 THEN {SundayToMonday(x)}
            ELSE {ApplyOffset(x, <<"weekof", CASE y \in {1988, 1993, 1994, 1983} -> 1
                                              [] y = 1985 -> 3 [] OTHER -> 2, MON>>)}
      [] obs = "boxing_day_hk"       -> {x}
      \* Moscow
      [] obs = "defender_of_fatherland" -> Except(x, {2013, 2014, 2019}, {WeekendToMonday(x)})
      [] obs = "new_years_eve_ru"    -> Except(x, {2008, 2009}, {WeekendToMonday(x)})
      [] obs = "new_years_holiday_ru" -> Except(x, {2016}, {WeekendToMonday(x)})
      [] obs = "orthodox_christmas"  -> Except(x, {2012, 2017}, {WeekendToMonday(x)})
      \* Santiago
      [] obs = "nearest_monday_cl"   -> {CASE w \in {TUE, WED, THU} -> x - w [] w = FRI -> x + 3 [] OTHER -> x}
      [] obs = "tue_wed_to_friday"   -> {CASE w = TUE -> x - 4 [] w = WED -> x + 2 [] OTHER -> x}
      \* Bangkok
      [] obs = "new_years_day_th"    -> Except(x, {2006}, {NextMondayOrTuesday(x)})
      [] obs = "new_years_eve_th"    -> Except(x, {2003}, {WeekendToMonday(x)})
      [] obs = "songkran_last_day"   -> {IF w \in {SUN, MON} THEN x + 1 ELSE x}
      \* Tokyo
      [] obs = "sunday_to_tuesday"   -> {IF w = SUN THEN x + 2 ELSE x}
      [] obs = "sunday_to_wednesday" -> {IF w = SUN THEN x + 3 ELSE x}
      \* United States: first Tuesday on or after, every fourth year
      [] obs = "tuesday_every_four_years" ->
            LET c == Civil(x) IN {OnOrAfter(DayNum(c[1] + ((4 - (c[1] % 4)) % 4), c[2], c[3]), TUE)}

-----------------------------------------------------------------------------
RuleSet(r, ref) ==
    IF r.off # <<>> THEN {ApplyOffsets(ref, r.off)}
    ELSE IF r.obs = "" THEN {ref} ELSE Observe(r.obs, ref)

InDow(r, x) == r.dow = {} \/ Weekday(x) \in r.dow

(* Dates in lo..hi produced by rule r from reference years ya..yb.          *)
RuleDates(r, lo, hi, ya, yb) ==
    IF r.year # 0
    THEN {DayNum(r.year, r.m, r.d)} \cap (lo .. hi)
    ELSE LET refs == {y \in ya .. yb : ~(r.m = 2 /\ r.d = 29) \/ IsLeap(y)}
             all  == UNION {RuleSet(r, DayNum(y, r.m, r.d)) : y \in refs}
         IN  {x \in all : /\ x >= lo /\ x <= hi
                          /\ x >= r.from /\ x <= r.to
                          /\ InDow(r, x)}

(* Those among them that calendars observe.                                 *)
RuleDays(r, lo, hi, ya, yb) ==
    IF r.year # 0 THEN RuleDates(r, lo, hi, ya, yb)
    ELSE {x \in RuleDates(r, lo, hi, ya, yb) : x >= Horizon[1] /\ x <= Horizon[2]}

LookBack(r) == IF r.obs = "tuesday_every_four_years" THEN 4 ELSE 1

(* All dates of the rules in the days lo..hi.                               *)
RulesDays(rs, lo, hi) ==
    UNION {RuleDays(rs[i], lo, hi, YearOf(lo) - LookBack(rs[i]), YearOf(hi) + 1) : i \in DOMAIN rs}
=============================================================================
