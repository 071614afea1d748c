------------------------------ MODULE EX_XBRU ------------------------------
EXTENDS RuleTables

XBRU == [
  name |-> "XBRU",
  tz |-> "Europe/Brussels",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 39>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20010101), year |-> 0],   \* Ascension Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 50>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20020101), year |-> 0],   \* Whit Monday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 7, d |-> 21, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20020101), year |-> 0],   \* Belgium Independence Day
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Boxing Day
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20020101), year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> {},
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(14, 5), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas Eve
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> YMD(20020101), to |-> PosInf, year |-> 0]   \* New Year's Eve
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
