------------------------------ MODULE EX_XLIS ------------------------------
EXTENDS RuleTables

XLIS == [
  name |-> "XLIS",
  tz |-> "Europe/Lisbon",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(8, 1)>>>>,
  closes |-> <<<<NegInf, HM(16, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -47>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Carnival
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 60>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Corpus Christi
    [m |-> 4, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Liberty Day
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 6, d |-> 10, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Portugal Day
    [m |-> 6, d |-> 13, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20020101), year |-> 0],   \* Saint Anthony's Day
    [m |-> 8, d |-> 15, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Assumption Day
    [m |-> 10, d |-> 5, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Republic Day
    [m |-> 11, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* All Saints Day
    [m |-> 12, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Independence Day
    [m |-> 12, d |-> 8, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Immaculate Conception
    [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Christmas Eve
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Boxing Day
  >>,
  adhoc |-> {},
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(13, 5), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> YMD(20030101), to |-> PosInf, year |-> 0],   \* Christmas Eve
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* New Year's Eve
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
