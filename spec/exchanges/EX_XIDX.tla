------------------------------ MODULE EX_XIDX ------------------------------
EXTENDS RuleTables

XIDX == [
  name |-> "XIDX",
  tz |-> "Asia/Jakarta",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(15, 50)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20140501), to |-> PosInf, year |-> 0],   \* Labor Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 39>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20030101), year |-> 0],   \* Ascension Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 39>>>>, obs |-> "", dow |-> {}, from |-> YMD(20040101), to |-> PosInf, year |-> 0],   \* Ascension Day
    [m |-> 6, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20170601), to |-> PosInf, year |-> 0],   \* Pancasila Day
    [m |-> 8, d |-> 17, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Independence Day
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> Days({
    20020212, 20020222, 20020315, 20021004, 20021205, 20021206, 20021209, 20021210,
    20021224, 20021226, 20021230,
    20030201, 20030212, 20030303, 20030402, 20030515, 20030516, 20030530, 20030818,
    20030922, 20031124, 20031125, 20031126, 20031127, 20031128, 20031224, 20031226,
    20040122, 20040202, 20040223, 20040322, 20040405, 20040503, 20040603, 20040705,
    20040913, 20040920, 20041115, 20041116, 20041117, 20041118, 20041119, 20041224,
    20050121, 20050209, 20050210, 20050311, 20050422, 20050524, 20050902, 20051102,
    20051103, 20051104, 20051107, 20051108, 20051226, 20051230,
    20060110, 20060129, 20060131, 20060330, 20060331, 20060410, 20060526, 20060818,
    20060821, 20061023, 20061024, 20061025, 20061026, 20061027, 20061229,
    20070218, 20070319, 20070518, 20070601, 20071012, 20071015, 20071016, 20071220,
    20071221, 20071224,
    20080110, 20080111, 20080207, 20080208, 20080307, 20080320, 20080520, 20080730,
    20080818, 20080930, 20081001, 20081002, 20081003, 20081009, 20081010, 20081208,
    20081229,
    20090102, 20090126, 20090309, 20090326, 20090409, 20090708, 20090720, 20090918,
    20090921, 20090922, 20090923, 20091127, 20091128, 20091218, 20091224,
    20100214, 20100226, 20100316, 20100528, 20100908, 20100909, 20100910, 20100913,
    20100914, 20101117, 20101207, 20101224,
    20110203, 20110215, 20110517, 20110629, 20110829, 20110830, 20110831, 20110901,
    20110902, 20111226,
    20120123, 20120323, 20120518, 20120820, 20120821, 20120822, 20121026, 20121115,
    20121116, 20121224,
    20130124, 20130210, 20130312, 20130606, 20130805, 20130806, 20130807, 20130808,
    20130809, 20131014, 20131015, 20131105, 20131226,
    20140114, 20140131, 20140331, 20140409, 20140515, 20140527, 20140709, 20140728,
    20140729, 20140730, 20140731, 20140801, 20141226,
    20150219, 20150602, 20150716, 20150717, 20150720, 20150721, 20150924, 20151014,
    20151209, 20151224,
    20160208, 20160309, 20160506, 20160704, 20160705, 20160706, 20160707, 20160708,
    20160912, 20161212, 20161226,
    20170102, 20170128, 20170215, 20170328, 20170419, 20170424, 20170511, 20170623,
    20170626, 20170627, 20170628, 20170629, 20170630, 20170901, 20170921, 20171201,
    20171226,
    20180216, 20180529, 20180611, 20180612, 20180613, 20180614, 20180615, 20180618,
    20180619, 20180822, 20180911, 20181120, 20181224,
    20190205, 20190307, 20190403, 20190417, 20190603, 20190604, 20190605, 20190606,
    20190607, 20191224,
    20200125, 20200325, 20200507, 20200522, 20200525, 20200526, 20200527, 20200731,
    20200820, 20201029, 20201224,
    20210212,
    20220201,
    20230122,
    20240210,
    20250129,
    20260217,
    20270206,
    20280126,
    20290213,
    20300203,
    20310123,
    20320211,
    20330131,
    20340219,
    20350208,
    20360128,
    20370215,
    20380204,
    20390124,
    20400212,
    20410201,
    20420122,
    20430210,
    20440130,
    20450217,
    20460206,
    20470126,
    20480214,
    20490202}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
