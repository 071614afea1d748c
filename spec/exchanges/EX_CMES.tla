------------------------------ MODULE EX_CMES ------------------------------
EXTENDS RuleTables

CMES == [
  name |-> "CME",
  tz |-> "America/Chicago",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(17, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> -1, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19540101), to |-> PosInf, year |-> 0]   \* Christmas
  >>,
  adhoc |-> Days({
    19721228,
    19730125,
    19940427,
    20040611,
    20070102,
    20181205}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(12, 0), <<
      [m |-> 1, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(19980101), to |-> PosInf, year |-> 0],   \* Dr. Martin Luther King Jr. Day
      [m |-> 2, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Presidents Day
      [m |-> 5, d |-> 25, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19710101), to |-> PosInf, year |-> 0],   \* Memorial Day
      [m |-> 9, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labor Day
      [m |-> 7, d |-> 4, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19540101), to |-> PosInf, year |-> 0],   \* July 4th
      [m |-> 11, d |-> 1, off |-> <<<<"nth", THU, 4>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Thanksgiving
      [m |-> 11, d |-> 1, off |-> <<<<"nth", THU, 4>>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19930101), to |-> PosInf, year |-> 0],   \* Black Friday
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU}, from |-> NegInf, to |-> YMD(19930101), year |-> 0],   \* Christmas Eve
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU}, from |-> YMD(19930101), to |-> PosInf, year |-> 0]   \* Christmas Eve
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
