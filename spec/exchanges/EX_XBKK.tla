------------------------------ MODULE EX_XBKK ------------------------------
EXTENDS RuleTables

XBKK == [
  name |-> "XBKK",
  tz |-> "Asia/Bangkok",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(10, 1)>>>>,
  closes |-> <<<<NegInf, HM(16, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "new_years_day_th", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 4, d |-> 6, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Chakri Memorial Day
    [m |-> 4, d |-> 13, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Songkran Festival
    [m |-> 4, d |-> 14, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Songkran Festival
    [m |-> 4, d |-> 15, off |-> <<>>, obs |-> "songkran_last_day", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Songkran Festival
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 5, d |-> 5, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> YMD(20170101), year |-> 0],   \* Coronation Day For King #9
    [m |-> 5, d |-> 4, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(20190101), to |-> PosInf, year |-> 0],   \* Coronation Day For King #10
    [m |-> 6, d |-> 3, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(20190101), to |-> PosInf, year |-> 0],   \* Her Majesty The Queen's Birthday
    [m |-> 7, d |-> 28, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(20170101), to |-> PosInf, year |-> 0],   \* His Majesty The King's Birthday
    [m |-> 8, d |-> 12, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Her Majesty The Queen Mother's Birthday
    [m |-> 7, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20020101), to |-> YMD(20170101), year |-> 0],   \* Half Year Holiday
    [m |-> 10, d |-> 13, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(20170101), to |-> PosInf, year |-> 0],   \* The Passing of King Bhumibol
    [m |-> 10, d |-> 23, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Chulalongkorn Day
    [m |-> 12, d |-> 5, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* King Bhumibol's Birthday
    [m |-> 12, d |-> 10, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Thailand Constitution Day
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "new_years_eve_th", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> Days({
    19810218, 19810518, 19810717,
    19820208, 19820507, 19820706,
    19830227, 19830526, 19830724,
    19840216, 19840515, 19840712,
    19850306, 19850602, 19850731,
    19860224, 19860523, 19860721,
    19870213, 19870513, 19870710,
    19880303, 19880531, 19880728,
    19890220, 19890520, 19890718,
    19900209, 19900509, 19900707,
    19910228, 19910528, 19910726,
    19920218, 19920516, 19920714,
    19930308, 19930604, 19930802,
    19940225, 19940524, 19940722,
    19950215, 19950514, 19950712,
    19960305, 19960601, 19960730,
    19970222, 19970522, 19970719,
    19980211, 19980511, 19980709,
    19990302, 19990530, 19990728,
    20000219, 20000518, 20000716,
    20010208, 20010507, 20010705,
    20020226, 20020527, 20020725, 20021230,
    20030217, 20030515, 20030714,
    20040102, 20040305, 20040602, 20040802,
    20050223, 20050523, 20050722,
    20060213, 20060419, 20060512, 20060612, 20060613, 20060711, 20060920,
    20070305, 20070531, 20070730, 20071224,
    20080221, 20080519, 20080717,
    20090102, 20090209, 20090508, 20090706, 20090707,
    20100301, 20100520, 20100521, 20100528, 20100726, 20100813,
    20110218, 20110516, 20110517, 20110715,
    20120307, 20120409, 20120604, 20120802,
    20130225, 20130524, 20130722, 20131230,
    20140214, 20140513, 20140711, 20140811,
    20150102, 20150304, 20150504, 20150601, 20150730,
    20160222, 20160506, 20160520, 20160718, 20160719,
    20170213, 20170510, 20170710, 20171026,
    20180301, 20180529, 20180727,
    20190219, 20190520, 20190716,
    20200210, 20200506, 20200706}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
