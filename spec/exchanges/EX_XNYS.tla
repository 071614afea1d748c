------------------------------ MODULE EX_XNYS ------------------------------
EXTENDS RuleTables

XNYS == [
  name |-> "XNYS",
  tz |-> "America/New_York",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 31)>>>>,
  closes |-> <<<<NegInf, HM(16, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(19980101), to |-> PosInf, year |-> 0],   \* Dr. Martin Luther King Jr. Day
    [m |-> 2, d |-> 12, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(18740101), to |-> YMD(19531231), year |-> 0],   \* Lincoln's Birthday
    [m |-> 2, d |-> 22, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(18800101), to |-> YMD(19631231), year |-> 0],   \* Washington's Birthday
    [m |-> 2, d |-> 22, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19640101), to |-> YMD(19701231), year |-> 0],   \* Washington's Birthday
    [m |-> 2, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(19710101), to |-> PosInf, year |-> 0],   \* President's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 5, d |-> 30, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(19631231), year |-> 0],   \* Memorial Day
    [m |-> 5, d |-> 30, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19640101), to |-> YMD(19691231), year |-> 0],   \* Memorial Day
    [m |-> 5, d |-> 25, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19710101), to |-> PosInf, year |-> 0],   \* Memorial Day
    [m |-> 7, d |-> 4, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(19531231), year |-> 0],   \* July 4th
    [m |-> 7, d |-> 4, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19540101), to |-> PosInf, year |-> 0],   \* July 4th
    [m |-> 9, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labor Day
    [m |-> 11, d |-> 30, off |-> <<<<"nth", THU, -1>>>>, obs |-> "", dow |-> {}, from |-> YMD(18640101), to |-> YMD(19381231), year |-> 0],   \* Thanksgiving Before 1939
    [m |-> 11, d |-> 30, off |-> <<<<"nth", THU, -2>>>>, obs |-> "", dow |-> {}, from |-> YMD(19390101), to |-> YMD(19411231), year |-> 0],   \* Thanksgiving 1939 to 1941
    [m |-> 11, d |-> 1, off |-> <<<<"nth", THU, 4>>>>, obs |-> "", dow |-> {}, from |-> YMD(19420101), to |-> PosInf, year |-> 0],   \* Thanksgiving
    [m |-> 11, d |-> 2, off |-> <<<<"nth", TUE, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(18480101), to |-> YMD(19671231), year |-> 0],   \* Election Day
    [m |-> 11, d |-> 2, off |-> <<>>, obs |-> "tuesday_every_four_years", dow |-> {}, from |-> YMD(19680101), to |-> YMD(19801231), year |-> 0],   \* Election Day
    [m |-> 11, d |-> 11, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(19340101), to |-> YMD(19531231), year |-> 0],   \* Veteran Day
    [m |-> 10, d |-> 12, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(19531231), year |-> 0],   \* Columbus Day
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(19531231), year |-> 0],   \* Christmas
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19540101), to |-> PosInf, year |-> 0]   \* Christmas
  >>,
  adhoc |-> Days({
    19721228,
    19730125,
    19770714,
    19850927,
    19940427,
    20010911, 20010912, 20010913, 20010914,
    20040611,
    20070102,
    20121029, 20121030,
    20181205}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(13, 0), <<
      [m |-> 7, d |-> 3, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, THU}, from |-> YMD(19950101), to |-> PosInf, year |-> 0],   \* Mondays, Tuesdays, and Thursdays Before Independence Day
      [m |-> 7, d |-> 5, off |-> <<>>, obs |-> "", dow |-> {FRI}, from |-> YMD(19950101), to |-> YMD(20130101), year |-> 0],   \* Fridays after Independence Day prior to 2013
      [m |-> 7, d |-> 3, off |-> <<>>, obs |-> "", dow |-> {WED}, from |-> YMD(20130101), to |-> PosInf, year |-> 0],   \* Wednesdays Before Independence Day including and after 2013
      [m |-> 11, d |-> 1, off |-> <<<<"nth", THU, 4>>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19930101), to |-> PosInf, year |-> 0],   \* Black Friday
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU}, from |-> YMD(19930101), to |-> PosInf, year |-> 0]   \* Christmas Eve
    >>>>, <<HM(14, 0), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU}, from |-> NegInf, to |-> YMD(19930101), year |-> 0],   \* Christmas Eve
      [m |-> 11, d |-> 1, off |-> <<<<"nth", THU, 4>>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19920101), to |-> YMD(19930101), year |-> 0]   \* Black Friday
    >>>>>>,
  sclosesA |-> <<<<HM(13, 0), Days({
      19971226,
      19991231,
      20031226})>>>>
]
=============================================================================
