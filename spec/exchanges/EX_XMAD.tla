------------------------------ MODULE EX_XMAD ------------------------------
EXTENDS RuleTables

XMAD == [
  name |-> "XMAD",
  tz |-> "Europe/Madrid",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 6, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20070101), year |-> 0],   \* Epiphany
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 8, d |-> 15, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(20050101), year |-> 0],   \* Assumption Day
    [m |-> 10, d |-> 12, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20050101), year |-> 0],   \* National Day
    [m |-> 11, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20050101), year |-> 0],   \* All Saints Day
    [m |-> 12, d |-> 6, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20050101), year |-> 0],   \* Constitution Day
    [m |-> 12, d |-> 8, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20050101), year |-> 0],   \* Immaculate Conception
    [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20110101), year |-> 0],   \* Christmas Eve
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Boxing Day
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20110101), year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> {},
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(14, 0), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> YMD(20120101), to |-> PosInf, year |-> 0],   \* Christmas Eve
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> YMD(20120101), to |-> PosInf, year |-> 0]   \* New Year's Eve
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
