------------------------------ MODULE EX_XMOS ------------------------------
EXTENDS RuleTables

XMOS == [
  name |-> "XMOS",
  tz |-> "Europe/Moscow",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(10, 1)>>>>,
  closes |-> <<<<NegInf, HM(18, 45)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 2, off |-> <<>>, obs |-> "new_years_holiday_ru", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Holiday
    [m |-> 1, d |-> 3, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20050101), to |-> YMD(20120101), year |-> 0],   \* New Year's Holiday
    [m |-> 1, d |-> 4, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20050101), to |-> YMD(20120101), year |-> 0],   \* New Year's Holiday
    [m |-> 1, d |-> 5, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20050101), to |-> YMD(20120101), year |-> 0],   \* New Year's Holiday
    [m |-> 1, d |-> 6, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20050101), to |-> YMD(20120101), year |-> 0],   \* New Year's Holiday
    [m |-> 1, d |-> 7, off |-> <<>>, obs |-> "orthodox_christmas", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Orthodox Christmas
    [m |-> 2, d |-> 23, off |-> <<>>, obs |-> "defender_of_fatherland", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Defender of the Fatherland Day
    [m |-> 3, d |-> 8, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Women's Day
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 5, d |-> 9, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Victory Day
    [m |-> 6, d |-> 12, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Day of Russia
    [m |-> 11, d |-> 4, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(20050101), to |-> PosInf, year |-> 0],   \* Unity Day
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "new_years_eve_ru", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> Days({
    20020502, 20020503, 20020510, 20021107, 20021108, 20021212, 20021213,
    20030103, 20030106, 20030502, 20030613, 20031107, 20031212,
    20040504, 20041108, 20041213,
    20050110, 20050307, 20050510,
    20060224, 20060508,
    20070430, 20070611,
    20080108, 20080502, 20080613, 20080918, 20081010, 20081027, 20081103,
    20090108, 20090109,
    20100108, 20100222, 20101105,
    20110110, 20110307,
    20120309, 20120430, 20120611,
    20130103, 20130104,
    20140103, 20140613,
    20150504,
    20160108, 20160503,
    20170508}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
