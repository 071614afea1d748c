------------------------------ MODULE EX_XSGO ------------------------------
EXTENDS RuleTables

XSGO == [
  name |-> "XSGO",
  tz |-> "America/Santiago",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 31)>>>>,
  closes |-> <<<<NegInf, HM(17, 0)>>, <<YMD(19800301), HM(16, 0)>>, <<YMD(19801101), HM(17, 0)>>, <<YMD(19810301), HM(16, 0)>>, <<YMD(19811101), HM(17, 0)>>, <<YMD(19820301), HM(16, 0)>>, <<YMD(19821101), HM(17, 0)>>, <<YMD(19830301), HM(16, 0)>>, <<YMD(19831101), HM(17, 0)>>, <<YMD(19840301), HM(16, 0)>>, <<YMD(19841101), HM(17, 0)>>, <<YMD(19850301), HM(16, 0)>>, <<YMD(19851101), HM(17, 0)>>, <<YMD(19860301), HM(16, 0)>>, <<YMD(19861101), HM(17, 0)>>, <<YMD(19870301), HM(16, 0)>>, <<YMD(19871101), HM(17, 0)>>, <<YMD(19880301), HM(16, 0)>>, <<YMD(19881101), HM(17, 0)>>, <<YMD(19890301), HM(16, 0)>>, <<YMD(19891101), HM(17, 0)>>, <<YMD(19900301), HM(16, 0)>>, <<YMD(19901101), HM(17, 0)>>, <<YMD(19910301), HM(16, 0)>>, <<YMD(19911101), HM(17, 0)>>, <<YMD(19920301), HM(16, 0)>>, <<YMD(19921101), HM(17, 0)>>, <<YMD(19930301), HM(16, 0)>>, <<YMD(19931101), HM(17, 0)>>, <<YMD(19940301), HM(16, 0)>>, <<YMD(19941101), HM(17, 0)>>, <<YMD(19950301), HM(16, 0)>>, <<YMD(19951101), HM(17, 0)>>, <<YMD(19960301), HM(16, 0)>>, <<YMD(19961101), HM(17, 0)>>, <<YMD(19970301), HM(16, 0)>>, <<YMD(19971101), HM(17, 0)>>, <<YMD(19980301), HM(16, 0)>>, <<YMD(19981101), HM(17, 0)>>, <<YMD(19990301), HM(16, 0)>>, <<YMD(19991101), HM(17, 0)>>, <<YMD(20000301), HM(16, 0)>>, <<YMD(20001101), HM(17, 0)>>, <<YMD(20010301), HM(16, 0)>>, <<YMD(20011101), HM(17, 0)>>, <<YMD(20020301), HM(16, 0)>>, <<YMD(20021101), HM(17, 0)>>, <<YMD(20030301), HM(16, 0)>>, <<YMD(20031101), HM(17, 0)>>, <<YMD(20040301), HM(16, 0)>>, <<YMD(20041101), HM(17, 0)>>, <<YMD(20050301), HM(16, 0)>>, <<YMD(20051101), HM(17, 0)>>, <<YMD(20060301), HM(16, 0)>>, <<YMD(20061101), HM(17, 0)>>, <<YMD(20070301), HM(16, 0)>>, <<YMD(20071101), HM(17, 0)>>, <<YMD(20080301), HM(16, 0)>>, <<YMD(20081101), HM(17, 0)>>, <<YMD(20090301), HM(16, 0)>>, <<YMD(20091101), HM(17, 0)>>, <<YMD(20100301), HM(16, 0)>>, <<YMD(20101101), HM(17, 0)>>, <<YMD(20110301), HM(16, 0)>>, <<YMD(20111101), HM(17, 0)>>, <<YMD(20120301), HM(16, 0)>>, <<YMD(20121101), HM(17, 0)>>, <<YMD(20130301), HM(16, 0)>>, <<YMD(20131101), HM(17, 0)>>, <<YMD(20140301), HM(16, 0)>>, <<YMD(20141101), HM(17, 0)>>, <<YMD(20150301), HM(16, 0)>>, <<YMD(20151101), HM(17, 0)>>, <<YMD(20160301), HM(16, 0)>>, <<YMD(20161101), HM(17, 0)>>, <<YMD(20170301), HM(16, 0)>>, <<YMD(20171101), HM(17, 0)>>, <<YMD(20180301), HM(16, 0)>>, <<YMD(20181101), HM(17, 0)>>, <<YMD(20190301), HM(16, 0)>>, <<YMD(20191101), HM(17, 0)>>, <<YMD(20200301), HM(16, 0)>>, <<YMD(20201101), HM(17, 0)>>, <<YMD(20210301), HM(16, 0)>>, <<YMD(20211101), HM(17, 0)>>, <<YMD(20220301), HM(16, 0)>>, <<YMD(20221101), HM(17, 0)>>, <<YMD(20230301), HM(16, 0)>>, <<YMD(20231101), HM(17, 0)>>, <<YMD(20240301), HM(16, 0)>>, <<YMD(20241101), HM(17, 0)>>, <<YMD(20250301), HM(16, 0)>>, <<YMD(20251101), HM(17, 0)>>, <<YMD(20260301), HM(16, 0)>>, <<YMD(20261101), HM(17, 0)>>, <<YMD(20270301), HM(16, 0)>>, <<YMD(20271101), HM(17, 0)>>, <<YMD(20280301), HM(16, 0)>>, <<YMD(20281101), HM(17, 0)>>, <<YMD(20290301), HM(16, 0)>>, <<YMD(20291101), HM(17, 0)>>, <<YMD(20300301), HM(16, 0)>>, <<YMD(20301101), HM(17, 0)>>, <<YMD(20310301), HM(16, 0)>>, <<YMD(20311101), HM(17, 0)>>, <<YMD(20320301), HM(16, 0)>>, <<YMD(20321101), HM(17, 0)>>, <<YMD(20330301), HM(16, 0)>>, <<YMD(20331101), HM(17, 0)>>, <<YMD(20340301), HM(16, 0)>>, <<YMD(20341101), HM(17, 0)>>, <<YMD(20350301), HM(16, 0)>>, <<YMD(20351101), HM(17, 0)>>, <<YMD(20360301), HM(16, 0)>>, <<YMD(20361101), HM(17, 0)>>, <<YMD(20370301), HM(16, 0)>>, <<YMD(20371101), HM(17, 0)>>, <<YMD(20380301), HM(16, 0)>>, <<YMD(20381101), HM(17, 0)>>, <<YMD(20390301), HM(16, 0)>>, <<YMD(20391101), HM(17, 0)>>, <<YMD(20400301), HM(16, 0)>>, <<YMD(20401101), HM(17, 0)>>, <<YMD(20410301), HM(16, 0)>>, <<YMD(20411101), HM(17, 0)>>, <<YMD(20420301), HM(16, 0)>>, <<YMD(20421101), HM(17, 0)>>, <<YMD(20430301), HM(16, 0)>>, <<YMD(20431101), HM(17, 0)>>, <<YMD(20440301), HM(16, 0)>>, <<YMD(20441101), HM(17, 0)>>, <<YMD(20450301), HM(16, 0)>>, <<YMD(20451101), HM(17, 0)>>, <<YMD(20460301), HM(16, 0)>>, <<YMD(20461101), HM(17, 0)>>, <<YMD(20470301), HM(16, 0)>>, <<YMD(20471101), HM(17, 0)>>, <<YMD(20480301), HM(16, 0)>>, <<YMD(20481101), HM(17, 0)>>, <<YMD(20490301), HM(16, 0)>>, <<YMD(20491101), HM(17, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 57>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20080101), year |-> 0],   \* Monday Prior to Corpus Christi
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 5, d |-> 21, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Navy Day
    [m |-> 6, d |-> 29, off |-> <<>>, obs |-> "nearest_monday_cl", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Saint Peter and Saint Paul Day
    [m |-> 7, d |-> 16, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20080101), to |-> PosInf, year |-> 0],   \* Our Lady of Mount Carmel's Day
    [m |-> 8, d |-> 15, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Assumption Day
    [m |-> 9, d |-> 17, off |-> <<>>, obs |-> "", dow |-> {MON}, from |-> YMD(20030101), to |-> PosInf, year |-> 0],   \* Public Holiday Preceeding a Tuesday Independence Day
    [m |-> 9, d |-> 18, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Independence Day
    [m |-> 9, d |-> 19, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Army Day
    [m |-> 9, d |-> 20, off |-> <<>>, obs |-> "", dow |-> {FRI}, from |-> YMD(20030101), to |-> PosInf, year |-> 0],   \* Public Holiday Following a Thursday Army Day
    [m |-> 10, d |-> 12, off |-> <<>>, obs |-> "nearest_monday_cl", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Dia de la Raza
    [m |-> 10, d |-> 31, off |-> <<>>, obs |-> "tue_wed_to_friday", dow |-> {}, from |-> YMD(20080101), to |-> PosInf, year |-> 0],   \* Evangelical Church Day
    [m |-> 11, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* All Saints Day
    [m |-> 12, d |-> 8, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Immaculate Conception
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> Days({
    20100917, 20100920,
    20170102, 20170419,
    20180116}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(12, 30), <<
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas Eve
      [m |-> 12, d |-> 30, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Day Before Bank Holiday
    >>>>, <<HM(13, 30), <<
      [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -3>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Maundy Thursday
      [m |-> 9, d |-> 17, off |-> <<>>, obs |-> "not_2010", dow |-> {TUE, WED, THU, FRI}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Day Before Independence Day
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
