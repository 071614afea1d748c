------------------------------ MODULE EX_XFRA ------------------------------
EXTENDS RuleTables

XFRA == [
  name |-> "XFRA",
  tz |-> "CET",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 50>>>>, obs |-> "", dow |-> {}, from |-> YMD(20150101), to |-> PosInf, year |-> 0],   \* Whit Monday
    [m |-> 10, d |-> 3, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20140101), to |-> PosInf, year |-> 0],   \* Day of German Unity
    [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas Eve
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Boxing Day
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> Days({
    20070528,
    20171031}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(12, 30), <<
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "previous_workday", dow |-> {}, from |-> YMD(20100101), to |-> PosInf, year |-> 0]   \* Last Working Day of Year Early Close
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
