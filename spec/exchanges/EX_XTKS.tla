------------------------------ MODULE EX_XTKS ------------------------------
EXTENDS RuleTables

XTKS == [
  name |-> "XTKS",
  tz |-> "Asia/Tokyo",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(15, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Holiday (Dec 31)
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 2, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Holiday (Jan 2)
    [m |-> 1, d |-> 3, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Holiday (Jan 3)
    [m |-> 1, d |-> 1, off |-> <<<<"nth", MON, 2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Coming of Age Day
    [m |-> 2, d |-> 11, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* National Foundation Day
    [m |-> 4, d |-> 29, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(20070101), year |-> 0],   \* Greenery Day
    [m |-> 4, d |-> 29, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(20070101), to |-> PosInf, year |-> 0],   \* Showa Day
    [m |-> 5, d |-> 3, off |-> <<>>, obs |-> "sunday_to_tuesday", dow |-> {}, from |-> NegInf, to |-> YMD(20070101), year |-> 0],   \* Constituion Memorial Day
    [m |-> 5, d |-> 3, off |-> <<>>, obs |-> "sunday_to_wednesday", dow |-> {}, from |-> YMD(20070101), to |-> PosInf, year |-> 0],   \* Constitution Memorial Day
    [m |-> 5, d |-> 4, off |-> <<>>, obs |-> "sunday_to_tuesday", dow |-> {}, from |-> YMD(20070101), to |-> PosInf, year |-> 0],   \* Greenery Day
    [m |-> 5, d |-> 4, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20070101), year |-> 0],   \* Citizen's Holiday Golden Week
    [m |-> 5, d |-> 5, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Children's Day
    [m |-> 7, d |-> 20, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Marine Day (through 2002)
    [m |-> 7, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(20030101), to |-> YMD(20200101), year |-> 0],   \* Marine Day (2003 - 2019)
    [m |-> 7, d |-> 23, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 2020],   \* Marine Day (2020)
    [m |-> 7, d |-> 22, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 2021],   \* Marine Day (2021)
    [m |-> 7, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(20220101), to |-> PosInf, year |-> 0],   \* Marine Day (2022 onwards)
    [m |-> 8, d |-> 11, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(20160101), to |-> YMD(20200101), year |-> 0],   \* Mountain Day (through 2019)
    [m |-> 8, d |-> 10, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 2020],   \* Mountain Day (2020)
    [m |-> 8, d |-> 9, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 2021],   \* Mountain Day (2021)
    [m |-> 8, d |-> 11, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(20220101), to |-> PosInf, year |-> 0],   \* Mountain Day (2022 onwards)
    [m |-> 9, d |-> 15, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Respect for the Aged Day (through 2002)
    [m |-> 9, d |-> 1, off |-> <<<<"nth", MON, 3>>>>, obs |-> "", dow |-> {}, from |-> YMD(20030101), to |-> PosInf, year |-> 0],   \* Respect for the Aged Day (2003 onwards)
    [m |-> 10, d |-> 1, off |-> <<<<"nth", MON, 2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20200101), year |-> 0],   \* Health and Sports Day (through 2019)
    [m |-> 7, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 2020],   \* Health and Sports Day (2020)
    [m |-> 7, d |-> 23, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 2021],   \* Health and Sports Day (2021)
    [m |-> 10, d |-> 1, off |-> <<<<"nth", MON, 2>>>>, obs |-> "", dow |-> {}, from |-> YMD(20220101), to |-> PosInf, year |-> 0],   \* Health and Sports Day (2022 onwards)
    [m |-> 11, d |-> 3, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Culture Day
    [m |-> 11, d |-> 23, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labor Thanksgiving Day
    [m |-> 12, d |-> 23, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(20190430), year |-> 0],   \* Emperor Akihito's Birthday
    [m |-> 2, d |-> 23, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(20190430), to |-> PosInf, year |-> 0]   \* Emperor Naruhito's Birthday
  >>,
  adhoc |-> Days({
    20000320, 20000923,
    20010320, 20010924,
    20020321, 20020923,
    20030321, 20030923,
    20040320, 20040923,
    20050321, 20050923,
    20060321, 20060923,
    20070321, 20070924,
    20080320, 20080923,
    20090320, 20090922, 20090923,
    20100322, 20100923,
    20110321, 20110923,
    20120320, 20120922,
    20130320, 20130923,
    20140321, 20140923,
    20150321, 20150922, 20150923,
    20160321, 20160922,
    20170320, 20170923,
    20180321, 20180924,
    20190321, 20190430, 20190501, 20190502, 20190923, 20191022,
    20200320, 20200922,
    20210320, 20210923}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
