------------------------------ MODULE EX_XTSE ------------------------------
EXTENDS RuleTables

XTSE == [
  name |-> "XTSE",
  tz |-> "America/Toronto",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 31)>>>>,
  closes |-> <<<<NegInf, HM(16, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 2, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(20080101), to |-> PosInf, year |-> 0],   \* Family Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 5, d |-> 24, off |-> <<<<"nth", MON, -1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Victoria Day
    [m |-> 7, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Canada Day
    [m |-> 8, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Civic Holiday
    [m |-> 9, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labor Day
    [m |-> 10, d |-> 1, off |-> <<<<"nth", MON, 2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Canadian Thanksgiving
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 27, off |-> <<>>, obs |-> "", dow |-> {MON, TUE}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Weekend Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Boxing Day
    [m |-> 12, d |-> 28, off |-> <<>>, obs |-> "", dow |-> {MON, TUE}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Weekend Boxing Day
  >>,
  adhoc |-> Days({
    20010911, 20010912}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(13, 0), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> YMD(20100101), to |-> PosInf, year |-> 0]   \* Christmas Eve Early Close
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
