------------------------------ MODULE EX_XASX ------------------------------
EXTENDS RuleTables

XASX == [
  name |-> "XASX",
  tz |-> "Australia/Sydney",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(10, 1)>>>>,
  closes |-> <<<<NegInf, HM(16, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 26, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(19940101), to |-> PosInf, year |-> 0],   \* Australia Day
    [m |-> 1, d |-> 26, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19600101), to |-> YMD(19871231), year |-> 0],   \* Australia Day
    [m |-> 1, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(19880101), to |-> YMD(19881231), year |-> 0],   \* Australia Day
    [m |-> 1, d |-> 26, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19890101), to |-> YMD(19921231), year |-> 0],   \* Australia Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 4, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20100101), year |-> 0],   \* Anzac Day
    [m |-> 4, d |-> 25, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(20100101), to |-> YMD(20110101), year |-> 0],   \* Anzac Day
    [m |-> 4, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Anzac Day
    [m |-> 6, d |-> 1, off |-> <<<<"nth", MON, 2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Queen's Birthday
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 27, off |-> <<>>, obs |-> "", dow |-> {MON, TUE}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Weekend Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Boxing Day
    [m |-> 12, d |-> 28, off |-> <<>>, obs |-> "", dow |-> {MON, TUE}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Weekend Boxing Day
  >>,
  adhoc |-> Days({
    19841231,
    19880125,
    19901231,
    19991231,
    20110426}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(14, 10), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "previous_friday", dow |-> {}, from |-> YMD(20100101), to |-> PosInf, year |-> 0],   \* Last Trading Day Before Christmas
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "previous_friday", dow |-> {}, from |-> YMD(20100101), to |-> PosInf, year |-> 0]   \* Last Trading Day Of Calendar Year
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
