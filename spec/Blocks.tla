------------------------------- MODULE Blocks --------------------------------
(***************************************************************************)
(* The reusable holidays the library offers for writing calendars: what    *)
(* date each names, before the caller's choice of first and last date,     *)
(* observance and weekdays is applied (C22).                               *)
(***************************************************************************)
EXTENDS HolidayRules

Fixed(m, d)  == [m |-> m, d |-> d, off |-> <<>>, dow |-> {}]
FromEaster(n) == [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", n>>>>, dow |-> {}]

Jewish == [
    Purim           |-> <<<<"purim">>>>,
    PassoverEve     |-> <<<<"passover">>, <<"days", -1>>>>,
    Passover        |-> <<<<"passover">>>>,
    Passover2Eve    |-> <<<<"passover">>, <<"days", 5>>>>,
    Passover2       |-> <<<<"passover">>, <<"days", 6>>>>,
    MemorialDay     |-> <<<<"memorial">>>>,
    IndependenceDay |-> <<<<"memorial">>, <<"days", 1>>>>,
    PentecostEve    |-> <<<<"pentecost">>, <<"days", -1>>>>,
    Pentecost       |-> <<<<"pentecost">>>>,
    FastDay         |-> <<<<"fastday">>>>,
    NewYearsEve     |-> <<<<"roshhashanah">>, <<"days", -1>>>>,
    NewYear         |-> <<<<"roshhashanah">>>>,
    NewYear2        |-> <<<<"roshhashanah">>, <<"days", 1>>>>,
    YomKippurEve    |-> <<<<"yomkippur">>, <<"days", -1>>>>,
    YomKippur       |-> <<<<"yomkippur">>>>,
    SukkothEve      |-> <<<<"sukkoth">>, <<"days", -1>>>>,
    Sukkoth         |-> <<<<"sukkoth">>>>,
    SimchatTorahEve |-> <<<<"simchattorah">>, <<"days", -1>>>>,
    SimchatTorah    |-> <<<<"simchattorah">>>>]

(* United States: what each name means, complete with its years (C30).     *)
Since(y)      == DayNum(y, 1, 1)
Until(y)      == DayNum(y, 12, 31)
On(m, d, obs, a, b)        == [m |-> m, d |-> d, off |-> <<>>, obs |-> obs, dow |-> {}, from |-> a, to |-> b, year |-> 0]
OnDays(m, d, dow, a, b)    == [On(m, d, "", a, b) EXCEPT !.dow = dow]
The(n, wd, m, a, b)        == [On(m, 1, "", a, b) EXCEPT !.off = <<<<"nth", wd, n>>>>]
FromEnd(n, wd, m, d, a, b) == [On(m, d, "", a, b) EXCEPT !.off = <<<<"nth", wd, -n>>>>]
ThanksgivingFriday(a, b)   == [On(11, 1, "", a, b) EXCEPT !.off = <<<<"nth", THU, 4>>, <<"days", 1>>>>]
US == [
    USNewYearsDay                    |-> On(1, 1, "sunday_to_monday", NegInf, PosInf),
    USMartinLutherKingJrAfter1998    |-> The(3, MON, 1, Since(1998), PosInf),
    USLincolnsBirthDayBefore1954     |-> On(2, 12, "sunday_to_monday", Since(1874), Until(1953)),
    USWashingtonsBirthDayBefore1964  |-> On(2, 22, "sunday_to_monday", Since(1880), Until(1963)),
    USWashingtonsBirthDay1964to1970  |-> On(2, 22, "nearest_workday", Since(1964), Until(1970)),
    USPresidentsDay                  |-> The(3, MON, 2, Since(1971), PosInf),
    USThanksgivingDayBefore1939      |-> FromEnd(1, THU, 11, 30, Since(1864), Until(1938)),
    USThanksgivingDay1939to1941      |-> FromEnd(2, THU, 11, 30, Since(1939), Until(1941)),
    USThanksgivingDay                |-> The(4, THU, 11, Since(1942), PosInf),
    USMemorialDayBefore1964          |-> On(5, 30, "sunday_to_monday", NegInf, Until(1963)),
    USMemorialDay1964to1969          |-> On(5, 30, "nearest_workday", Since(1964), Until(1969)),
    USMemorialDay                    |-> FromEnd(1, MON, 5, 31, Since(1971), PosInf),
    USIndependenceDayBefore1954      |-> On(7, 4, "sunday_to_monday", NegInf, Until(1953)),
    USIndependenceDay                |-> On(7, 4, "nearest_workday", Since(1954), PosInf),
    USElectionDay1848to1967          |-> [On(11, 2, "", Since(1848), Until(1967)) EXCEPT !.off = <<<<"nth", TUE, 1>>>>],
    USElectionDay1968to1980          |-> On(11, 2, "tuesday_every_four_years", Since(1968), Until(1980)),
    USVeteransDay1934to1953          |-> On(11, 11, "sunday_to_monday", Since(1934), Until(1953)),
    USColumbusDayBefore1954          |-> On(10, 12, "sunday_to_monday", NegInf, Until(1953)),
    ChristmasBefore1954              |-> On(12, 25, "sunday_to_monday", NegInf, Until(1953)),
    Christmas                        |-> On(12, 25, "nearest_workday", Since(1954), PosInf),
    \* half-days
    ChristmasEveBefore1993           |-> OnDays(12, 24, {MON, TUE, WED, THU}, NegInf, Until(1992)),
    ChristmasEveInOrAfter1993        |-> OnDays(12, 24, {MON, TUE, WED, THU}, Since(1993), PosInf),
    MonTuesThursBeforeIndependenceDay      |-> OnDays(7, 3, {MON, TUE, THU}, Since(1995), PosInf),
    FridayAfterIndependenceDayPre2013      |-> OnDays(7, 5, {FRI}, Since(1995), Until(2012)),
    WednesdayBeforeIndependenceDayPost2013 |-> OnDays(7, 3, {WED}, Since(2013), PosInf),
    USBlackFridayBefore1993          |-> ThanksgivingFriday(Since(1992), Until(1992)),
    USBlackFridayInOrAfter1993       |-> ThanksgivingFriday(Since(1993), PosInf)]

(* One-off closings of the New York exchanges, by name (month and day as   *)
(* a number, month * 100 + day).                                           *)
In(y, ds) == {DayNum(y, x \div 100, x % 100) : x \in ds}
Closings == [
    November29BacklogRelief      |-> In(1929, {1101, 1129}),
    March33BankHoliday           |-> In(1933, {306, 307, 308, 309, 310, 313, 314}),
    August45VictoryOverJapan     |-> In(1945, {815, 816}),
    ChristmasEvesAdhoc           |-> In(1945, {1224}) \cup In(1956, {1224}),
    DayAfterChristmasAdhoc       |-> In(1958, {1226}),
    DayBeforeDecorationAdhoc     |-> In(1961, {529}),
    LincolnsBirthDayAdhoc        |-> In(1968, {212}),
    \* Wednesdays from 12 June 1968, except in weeks with a holiday
    PaperworkCrisis68            |-> ({x \in DayNum(1968, 6, 12) .. DayNum(1968, 12, 25) : Weekday(x) = WED}
                                      \ In(1968, {703, 904, 1106, 1113, 1127})) \cup In(1968, {1111}),
    DayAfterIndependenceDayAdhoc |-> In(1968, {705}),
    WeatherSnowClosing           |-> In(1969, {210}),
    FirstLunarLandingClosing     |-> In(1969, {721}),
    NewYorkCityBlackout77        |-> In(1977, {714}),
    September11Closings          |-> In(2001, {911, 912, 913, 914}),
    HurricaneSandyClosings       |-> In(2012, {1029, 1030}),
    HurricaneGloriaClosing       |-> In(1985, {927}),
    USNationalDaysofMourning     |-> In(1963, {1125}) \cup In(1968, {409}) \cup In(1969, {331}) \cup In(1972, {1228})
                                     \cup In(1973, {125}) \cup In(1994, {427}) \cup In(2004, {611})
                                     \cup In(2007, {102}) \cup In(2018, {1205})]

Block(name) ==
    CASE name = "new_years_day"         -> Fixed(1, 1)
      [] name = "epiphany"              -> Fixed(1, 6)
      [] name = "anzac_day"             -> Fixed(4, 25)
      [] name = "european_labour_day"   -> Fixed(5, 1)
      [] name = "holy_wednesday"        -> FromEaster(-4)
      [] name = "maundy_thursday"       -> FromEaster(-3)
      [] name = "ascension_day"         -> FromEaster(39)
      [] name = "whit_monday"           -> FromEaster(50)
      [] name = "corpus_christi"        -> FromEaster(60)
      \* the Friday between 19 and 25 June
      [] name = "midsummer_eve"         -> [m |-> 6, d |-> 19, off |-> <<<<"nth", FRI, 1>>>>, dow |-> {}]
      [] name = "saint_peter_and_saint_paul_day" -> Fixed(6, 29)
      [] name = "assumption_day"        -> Fixed(8, 15)
      [] name = "all_saints_day"        -> Fixed(11, 1)
      [] name = "immaculate_conception" -> Fixed(12, 8)
      [] name = "christmas_eve"         -> Fixed(12, 24)
      [] name = "christmas"             -> Fixed(12, 25)
      [] name = "boxing_day"            -> Fixed(12, 26)
      [] name = "new_years_eve"         -> Fixed(12, 31)
      \* Israel
      [] name \in DOMAIN Jewish        -> [m |-> 1, d |-> 1, off |-> Jewish[name], dow |-> {}]
      \* Christmas on a weekend: the 27th, when that is a Monday or Tuesday
      [] name = "weekend_christmas"     -> [m |-> 12, d |-> 27, off |-> <<>>, dow |-> {MON, TUE}]
      [] name = "weekend_boxing_day"    -> [m |-> 12, d |-> 28, off |-> <<>>, dow |-> {MON, TUE}]

BlockRule(b) ==
    IF b.name \in DOMAIN US THEN US[b.name] ELSE
    LET k == Block(b.name) IN
    [m |-> k.m, d |-> k.d, off |-> k.off, obs |-> b.obs,
     dow |-> IF k.dow # {} THEN k.dow ELSE {b.dow[i] : i \in DOMAIN b.dow},
     from |-> b.from, to |-> b.to, year |-> 0]

-----------------------------------------------------------------------------
(* What the names promise, checked for every year in MCBlocks.             *)
DaysOf(name, y) == LET r == BlockRule([name |-> name, obs |-> "", dow |-> <<>>, from |-> NegInf, to |-> PosInf])
                   IN  RuleDates(r, DayNum(y, 1, 1), DayNum(y, 12, 31), y, y)
USOn(name, y) == RuleDates(US[name], DayNum(y, 1, 1), DayNum(y, 12, 31), y - 4, y + 1)
Working(S)    == \A x \in S : Weekday(x) \notin {SAT, SUN}
OneOf(names, y) == Cardinality(UNION {USOn(n, y) : n \in names}) = 1
USPromise(y) ==
    LET thanks == UNION {USOn(n, y) : n \in {"USThanksgivingDayBefore1939", "USThanksgivingDay1939to1941", "USThanksgivingDay"}}
        black  == USOn("USBlackFridayBefore1993", y) \cup USOn("USBlackFridayInOrAfter1993", y)
    IN
    \* each of these is observed once a year, whichever rule is in force
    /\ y >= 1864 => Cardinality(thanks) = 1 /\ \A x \in thanks : Weekday(x) = THU /\ Civil(x)[2] = 11
    /\ y >= 1992 => black = {x + 1 : x \in thanks}
    /\ y < 1992 => black = {}
    /\ y >= 1880 => OneOf({"USWashingtonsBirthDayBefore1964", "USWashingtonsBirthDay1964to1970", "USPresidentsDay"}, y)
    /\ y # 1970 => OneOf({"USMemorialDayBefore1964", "USMemorialDay1964to1969", "USMemorialDay"}, y)
    /\ OneOf({"USIndependenceDayBefore1954", "USIndependenceDay"}, y)
    /\ OneOf({"ChristmasBefore1954", "Christmas"}, y)
    /\ y >= 1968 /\ y <= 1980 => (USOn("USElectionDay1968to1980", y) # {}) = (y % 4 = 0)
    \* election day is the Tuesday after the first Monday
    /\ \A x \in USOn("USElectionDay1848to1967", y) \cup USOn("USElectionDay1968to1980", y) :
            Weekday(x) = TUE /\ Civil(x)[3] \in 2 .. 8
    \* since 1954 all but New Year's Day are moved off weekends
    /\ y >= 1971 => Working(UNION {USOn(n, y) : n \in DOMAIN US \ {"USNewYearsDay"}})
    \* Christmas Eve is never both a half-day and a holiday, and one day of
    \* the week of Independence Day at most is a half-day
    /\ (USOn("ChristmasEveBefore1993", y) \cup USOn("ChristmasEveInOrAfter1993", y)) \cap USOn("Christmas", y) = {}
    /\ LET half == UNION {USOn(n, y) : n \in {"MonTuesThursBeforeIndependenceDay", "FridayAfterIndependenceDayPre2013",
                                              "WednesdayBeforeIndependenceDayPost2013"}}
       IN  /\ half \cap USOn("USIndependenceDay", y) = {}
           /\ Cardinality(half) = IF y < 1995 THEN 0
                                  ELSE IF Weekday(DayNum(y, 7, 4)) \in {SAT, SUN, MON} THEN 0 ELSE 1
    /\ \A n \in DOMAIN Closings : Working(Closings[n])

Promise(y) ==
    /\ USPromise(y)
    /\ \A x \in DaysOf("holy_wednesday", y) : Weekday(x) = WED
    /\ \A x \in DaysOf("maundy_thursday", y) : Weekday(x) = THU /\ x + 3 = Easter(y)
    /\ \A x \in DaysOf("ascension_day", y) : Weekday(x) = THU
    /\ \A x \in DaysOf("whit_monday", y) : Weekday(x) = MON
    /\ \A x \in DaysOf("corpus_christi", y) : Weekday(x) = THU
    /\ \A x \in DaysOf("midsummer_eve", y) : Weekday(x) = FRI /\ x \in DayNum(y, 6, 19) .. DayNum(y, 6, 25)
    \* a weekend Christmas and Boxing Day leave exactly two working days off
    /\ LET off == UNION {DaysOf(n, y) : n \in {"christmas", "boxing_day", "weekend_christmas", "weekend_boxing_day"}}
       IN  Cardinality({x \in off : Weekday(x) \notin {SAT, SUN}}) = 2
    /\ \A n \in {"holy_wednesday", "maundy_thursday", "ascension_day", "whit_monday", "corpus_christi",
                 "midsummer_eve", "new_years_day", "christmas"} : Cardinality(DaysOf(n, y)) = 1
=============================================================================
