------------------------------ MODULE EX_XDUB ------------------------------
EXTENDS RuleTables

XDUB == [
  name |-> "XDUB",
  tz |-> "Europe/Dublin",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(8, 1)>>>>,
  closes |-> <<<<NegInf, HM(16, 28)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 3, d |-> 17, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(20010101), year |-> 0],   \* St. Patrick's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(20080101), to |-> YMD(20100101), year |-> 0],   \* Labour Day
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(20190101), to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 5, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20190101), year |-> 0],   \* May Bank Holiday
    [m |-> 6, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20190101), year |-> 0],   \* June Bank Holiday
    [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20050101), year |-> 0],   \* Christmas Eve
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 27, off |-> <<>>, obs |-> "", dow |-> {MON, TUE}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Weekend Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Boxing Day
    [m |-> 12, d |-> 28, off |-> <<>>, obs |-> "", dow |-> {MON, TUE}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Weekend Boxing Day
  >>,
  adhoc |-> Days({
    20180302}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(12, 28), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "previous_friday", dow |-> {}, from |-> YMD(20100101), to |-> PosInf, year |-> 0],   \* Last Trading Day Before Christmas
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "previous_friday", dow |-> {}, from |-> YMD(20100101), to |-> PosInf, year |-> 0]   \* Last Trading Day Of Calendar Year
    >>>>>>,
  sclosesA |-> <<<<HM(12, 28), Days({
      20180301})>>>>
]
=============================================================================
