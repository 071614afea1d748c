------------------------------ MODULE EX_XMEX ------------------------------
EXTENDS RuleTables

XMEX == [
  name |-> "XMEX",
  tz |-> "America/Mexico_City",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(8, 31)>>>>,
  closes |-> <<<<NegInf, HM(15, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 2, d |-> 5, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20070101), year |-> 0],   \* Constitution Day
    [m |-> 2, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(20070101), to |-> PosInf, year |-> 0],   \* Constitution Day Observed
    [m |-> 3, d |-> 21, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20070101), year |-> 0],   \* Juarez's Birthday
    [m |-> 3, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(20070101), to |-> PosInf, year |-> 0],   \* Juarez's Birthday Observed
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -3>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Maundy Thursday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 9, d |-> 16, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Independence Day
    [m |-> 11, d |-> 2, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20060101), to |-> PosInf, year |-> 0],   \* All Souls' Day
    [m |-> 11, d |-> 20, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20070101), year |-> 0],   \* Revolution Day
    [m |-> 11, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(20070101), to |-> PosInf, year |-> 0],   \* Revolution Day Observed
    [m |-> 12, d |-> 12, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Banking Holiday
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Christmas
  >>,
  adhoc |-> Days({
    20100917}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
