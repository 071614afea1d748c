------------------------------ MODULE EX_XCBF ------------------------------
EXTENDS RuleTables

XCBF == [
  name |-> "XCBF",
  tz |-> "America/Chicago",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(8, 31)>>>>,
  closes |-> <<<<NegInf, HM(15, 15)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(19980101), to |-> PosInf, year |-> 0],   \* Dr. Martin Luther King Jr. Day
    [m |-> 2, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Presidents Day
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "good_friday_unless_christmas_nye_friday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday XCBF
    [m |-> 7, d |-> 4, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19540101), to |-> PosInf, year |-> 0],   \* July 4th
    [m |-> 5, d |-> 25, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19710101), to |-> PosInf, year |-> 0],   \* Memorial Day
    [m |-> 9, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labor Day
    [m |-> 11, d |-> 1, off |-> <<<<"nth", THU, 4>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Thanksgiving
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19540101), to |-> PosInf, year |-> 0]   \* Christmas
  >>,
  adhoc |-> Days({
    19721228,
    19730125,
    19940427,
    20040611,
    20070102,
    20121029, 20121030,
    20181205}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(12, 15), <<
      [m |-> 11, d |-> 1, off |-> <<<<"nth", THU, 4>>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19930101), to |-> PosInf, year |-> 0]   \* Black Friday
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
