------------------------------ MODULE EX_XPHS ------------------------------
EXTENDS RuleTables

XPHS == [
  name |-> "XPHS",
  tz |-> "Asia/Manila",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 31)>>>>,
  closes |-> <<<<NegInf, HM(15, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 2, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20160101), to |-> PosInf, year |-> 0],   \* People Power Revolution
    [m |-> 4, d |-> 9, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Araw Ng Kagitingan
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -3>>>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Maundy Thursday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 6, d |-> 12, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Independence Day
    [m |-> 8, d |-> 21, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Ninoy Aquino Day
    [m |-> 8, d |-> 31, off |-> <<<<"nth", MON, -1>>>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* National Heroes Day
    [m |-> 11, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* All Saints Day
    [m |-> 11, d |-> 2, off |-> <<>>, obs |-> "only_friday", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Friday after All Saint's Day
    [m |-> 11, d |-> 30, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Bonifacio Day
    [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Christmas Eve
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 30, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Rizal Day
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> Days({
    20020101, 20020225, 20020328, 20020329, 20020408, 20020501, 20020612, 20020715,
    20021031, 20021101, 20021206, 20021224, 20021225, 20021230, 20021231,
    20030101, 20030225, 20030407, 20030417, 20030418, 20030501, 20030502, 20030613,
    20030822, 20031126, 20031224, 20031225, 20031226, 20031231,
    20040101, 20040102, 20040225, 20040407, 20040408, 20040409, 20040510, 20041101,
    20041115, 20041129, 20041203, 20041224, 20041227, 20041230, 20041231,
    20050225, 20050323, 20050324, 20050325, 20050502, 20050613, 20050725, 20050829,
    20051031, 20051101, 20051104, 20051128, 20051226, 20051230,
    20060413, 20060414, 20060501, 20060612, 20060724, 20060821, 20060928, 20060929,
    20061024, 20061101, 20061201, 20061225, 20061226,
    20070101, 20070405, 20070406, 20070409, 20070501, 20070514, 20070611, 20070820,
    20070827, 20071012, 20071029, 20071101, 20071102, 20071130, 20071224, 20071225,
    20071231,
    20080101, 20080225, 20080320, 20080321, 20080407, 20080501, 20080609, 20080818,
    20080825, 20081001, 20081201, 20081225, 20081226, 20081229, 20081230, 20081231,
    20090101, 20090102, 20090406, 20090409, 20090410, 20090501, 20090612, 20090717,
    20090805, 20090821, 20090831, 20090907, 20090921, 20091102, 20091130, 20091224,
    20091225, 20091230, 20091231,
    20100101, 20100401, 20100402, 20100409, 20100503, 20100510, 20100614, 20100630,
    20100830, 20100910, 20101025, 20101101, 20101116, 20101129, 20101224, 20101227,
    20101231,
    20110620, 20110830, 20110927, 20111031, 20111107,
    20120123, 20120807, 20120820, 20121026,
    20130210, 20130513, 20130809, 20130819, 20130820, 20131015, 20131028,
    20140131, 20140716, 20140729, 20140919, 20141006, 20141208, 20141226,
    20150102, 20150115, 20150116, 20150219, 20150717, 20150925, 20151118, 20151119,
    20160208, 20160509, 20160706, 20160912, 20161031, 20161226,
    20170102, 20170128, 20170428, 20170626, 20170901, 20170912, 20171016, 20171031,
    20171226,
    20180102, 20180216, 20180514, 20180615, 20180821,
    20190205, 20190513, 20190605, 20190812,
    20200125,
    20210212,
    20220201,
    20230122,
    20240210,
    20250129,
    20260217,
    20270206,
    20280126,
    20290213,
    20300203,
    20310123,
    20320211,
    20330131,
    20340219,
    20350208,
    20360128,
    20370215,
    20380204,
    20390124,
    20400212,
    20410201,
    20420122,
    20430210,
    20440130,
    20450217,
    20460206,
    20470126,
    20480214,
    20490202}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
