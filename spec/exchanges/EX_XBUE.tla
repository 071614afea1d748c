------------------------------ MODULE EX_XBUE ------------------------------
EXTENDS RuleTables

XBUE == [
  name |-> "XBUE",
  tz |-> "America/Argentina/Buenos_Aires",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(11, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -48>>>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Carnival Monday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -47>>>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Carnival Tuesday
    [m |-> 3, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20050101), to |-> PosInf, year |-> 0],   \* Truth and Justice Memorial Day
    [m |-> 3, d |-> 31, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20050101), year |-> 0],   \* Malvinas Day (up to 2004)
    [m |-> 4, d |-> 2, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20050101), to |-> PosInf, year |-> 0],   \* Malvinas Day (2005-present)
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -3>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Maundy Thursday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 5, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* May Day Revolution
    [m |-> 6, d |-> 17, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20160101), to |-> PosInf, year |-> 0],   \* Martin Miguel de Guemes Day
    [m |-> 6, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20110101), year |-> 0],   \* National Flag Day (up to 2010)
    [m |-> 6, d |-> 20, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* National Flag Day (2011-present)
    [m |-> 7, d |-> 9, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Independence Day
    [m |-> 8, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20110101), year |-> 0],   \* San Martin's Day
    [m |-> 8, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(20120101), to |-> PosInf, year |-> 0],   \* San Martin's Day
    [m |-> 10, d |-> 12, off |-> <<>>, obs |-> "cultural_diversity", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Day of Respect for Cultural Diversity
    [m |-> 11, d |-> 6, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20180101), year |-> 0],   \* Bank Holiday
    [m |-> 11, d |-> 1, off |-> <<<<"nth", MON, 4>>>>, obs |-> "", dow |-> {}, from |-> YMD(20100101), to |-> YMD(20150101), year |-> 0],   \* Day of National Sovereignty (2010-2014)
    [m |-> 11, d |-> 17, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> YMD(20170101), to |-> PosInf, year |-> 0],   \* Day of National Sovereignty (2017-present)
    [m |-> 12, d |-> 8, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Immaculate Conception
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Christmas
  >>,
  adhoc |-> Days({
    20020107, 20020108, 20020109, 20020110, 20020111, 20020112, 20020113, 20020114,
    20020115, 20020116, 20020422, 20020423, 20020424, 20020425, 20020426,
    20090710,
    20100524, 20101027,
    20110325, 20110822, 20111209,
    20120102, 20120227, 20120430, 20120924, 20121008,
    20130131, 20130220, 20130401, 20130621,
    20140502, 20141226,
    20150323, 20151127, 20151207,
    20160708, 20161128, 20161209,
    20180430, 20181130, 20181224, 20181231,
    20190708, 20190819, 20191014}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(13, 0), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "not_2018", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas Eve
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "not_2018", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* New Year's Eve
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
