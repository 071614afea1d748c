------------------------------ MODULE EX_XLON ------------------------------
EXTENDS RuleTables

XLON == [
  name |-> "XLON",
  tz |-> "Europe/London",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(8, 1)>>>>,
  closes |-> <<<<NegInf, HM(16, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 5, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(19941231), year |-> 0],   \* Early May Bank Holiday
    [m |-> 5, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(19960101), to |-> YMD(20191231), year |-> 0],   \* Early May Bank Holiday
    [m |-> 5, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(20210101), to |-> PosInf, year |-> 0],   \* Early May Bank Holiday
    [m |-> 5, d |-> 31, off |-> <<<<"nth", MON, -1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20011231), year |-> 0],   \* Spring Bank Holiday
    [m |-> 5, d |-> 31, off |-> <<<<"nth", MON, -1>>>>, obs |-> "", dow |-> {}, from |-> YMD(20030101), to |-> YMD(20111231), year |-> 0],   \* Spring Bank Holiday
    [m |-> 5, d |-> 31, off |-> <<<<"nth", MON, -1>>>>, obs |-> "", dow |-> {}, from |-> YMD(20130101), to |-> PosInf, year |-> 0],   \* Spring Bank Holiday
    [m |-> 8, d |-> 31, off |-> <<<<"nth", MON, -1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Summer Bank Holiday
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 27, off |-> <<>>, obs |-> "", dow |-> {MON, TUE}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Weekend Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Boxing Day
    [m |-> 12, d |-> 28, off |-> <<>>, obs |-> "", dow |-> {MON, TUE}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Weekend Boxing Day
  >>,
  adhoc |-> Days({
    19731114,
    19770607,
    19810729,
    19950508,
    19991231,
    20020603, 20020604,
    20110429,
    20120604, 20120605,
    20200508}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(12, 30), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "previous_friday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas Eve
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "previous_friday", dow |-> {}, from |-> NegInf, to |-> YMD(19990101), year |-> 0],   \* New Year's Eve
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "previous_friday", dow |-> {}, from |-> YMD(20000101), to |-> PosInf, year |-> 0]   \* New Year's Eve
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
