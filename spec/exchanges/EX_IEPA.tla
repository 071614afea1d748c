------------------------------ MODULE EX_IEPA ------------------------------
EXTENDS RuleTables

IEPA == [
  name |-> "IEPA",
  tz |-> "America/New_York",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(20, 1)>>>>,
  closes |-> <<<<NegInf, HM(18, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> -1, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19540101), to |-> PosInf, year |-> 0]   \* Christmas
  >>,
  adhoc |-> Days({
    19721228,
    19730125,
    19940427,
    20040611,
    20070102,
    20121029,
    20181205}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(13, 0), <<
      [m |-> 1, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(19980101), to |-> PosInf, year |-> 0],   \* Dr. Martin Luther King Jr. Day
      [m |-> 2, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Presidents Day
      [m |-> 5, d |-> 25, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19710101), to |-> PosInf, year |-> 0],   \* Memorial Day
      [m |-> 7, d |-> 4, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19540101), to |-> PosInf, year |-> 0],   \* July 4th
      [m |-> 9, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labor Day
      [m |-> 11, d |-> 1, off |-> <<<<"nth", THU, 4>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Thanksgiving
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
