------------------------------ MODULE EX_XKAR ------------------------------
EXTENDS RuleTables

XKAR == [
  name |-> "XKAR",
  tz |-> "Asia/Karachi",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 33)>>>>,
  closes |-> <<<<NegInf, HM(15, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 2, d |-> 5, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Kashmir Day
    [m |-> 3, d |-> 23, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Pakistan Day
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 8, d |-> 14, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Independence Day
    [m |-> 11, d |-> 9, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20130101), year |-> 0],   \* Iqbal Day
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Birthday of Quaid-e-Azam & Christmas
  >>,
  adhoc |-> Days({
    20020101, 20020222, 20020225, 20020325, 20020523, 20021010, 20021203, 20021205,
    20021206,
    20030211, 20030212, 20030213, 20030214, 20030313, 20030314, 20030410, 20030515,
    20031126, 20031127, 20031128,
    20040101, 20040202, 20040203, 20040204, 20040301, 20040302, 20040503, 20041111,
    20041115, 20041116, 20041117,
    20050120, 20050121, 20050422, 20050818, 20051028, 20051101, 20051103, 20051104,
    20060110, 20060111, 20060112, 20060113, 20060208, 20060209, 20060411, 20060412,
    20061020, 20061023, 20061024, 20061025, 20061026, 20061027,
    20070101, 20070102, 20070129, 20070130, 20071010, 20071012, 20071015, 20071016,
    20071220, 20071221, 20071228,
    20080218, 20080321, 20080926, 20081001, 20081002, 20081003, 20081208, 20081209,
    20081210, 20081211,
    20090107, 20090108, 20090310, 20090921, 20090922, 20090923, 20091127, 20091130,
    20091228,
    20100101, 20100910, 20100913, 20101117, 20101118, 20101119, 20101216, 20101217,
    20110216, 20110826, 20110831, 20110901, 20110902, 20111024, 20111107, 20111108,
    20111111, 20111205, 20111206,
    20120817, 20120820, 20120821, 20120822, 20120921, 20121026, 20121029,
    20130125, 20130802, 20130808, 20130809, 20131015, 20131016, 20131017, 20131018,
    20131114, 20131115,
    20140114, 20140725, 20140729, 20140730, 20140731, 20140801, 20141006, 20141007,
    20141008, 20141103, 20141104,
    20150717, 20150720, 20150721, 20150924, 20150925, 20151023, 20151224,
    20160701, 20160705, 20160706, 20160707, 20160708, 20160912, 20160913, 20160914,
    20161011, 20161012, 20161212,
    20170623, 20170626, 20170627, 20170628, 20170901, 20170904, 20171201,
    20180608, 20180615, 20180618, 20180725, 20180821, 20180822, 20180823, 20180920,
    20180921, 20181121,
    20190531, 20190604, 20190605, 20190606, 20190607, 20190812, 20190813, 20190815,
    20190909, 20190910,
    20200522, 20200525, 20200526, 20200527, 20200731, 20201030}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
