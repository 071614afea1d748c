------------------------------ MODULE EX_XSES ------------------------------
EXTENDS RuleTables

XSES == [
  name |-> "XSES",
  tz |-> "Asia/Singapore",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<>>,
  adhoc |-> Days({
    19860101, 19860210, 19860211, 19860328, 19860501, 19860523, 19860609, 19861225,
    19870101, 19870129, 19870130, 19870501, 19870512, 19870529, 19870805, 19870810,
    19871021, 19871225,
    19880101, 19880217, 19880218, 19880401, 19880502, 19880517, 19880530, 19880725,
    19880809, 19881108, 19881226,
    19890102, 19890206, 19890207, 19890324, 19890501, 19890508, 19890519, 19890713,
    19890809, 19891225,
    19900101, 19900413, 19900426, 19900501, 19900509, 19900703, 19900809, 19901225,
    19910101, 19910115, 19910329, 19910416, 19910501, 19910528, 19910624, 19910809,
    19911105, 19911224, 19911225, 19911231,
    19920101, 19920204, 19920205, 19920406, 19920417, 19920501, 19920611, 19920810,
    19921225,
    19930101, 19930125, 19930325, 19930409, 19930506, 19930601, 19930809,
    19940110, 19940111, 19940201, 19940211, 19940314, 19940401, 19940502, 19940525,
    19940809, 19941013, 19941102, 19941226,
    19950102, 19950131, 19950201, 19950303, 19950414, 19950501, 19950510, 19950515,
    19950809, 19951023, 19951225,
    19960101, 19960219, 19960220, 19960221, 19960405, 19960501, 19960531, 19960809,
    19961225,
    19970101, 19970207, 19970210, 19970328, 19970418, 19970501, 19970521, 19971225,
    19980101, 19980128, 19980129, 19980130, 19980407, 19980410, 19980501, 19980511,
    19980810, 19981019, 19981225,
    19990101, 19990119, 19990216, 19990217, 19990329, 19990402, 19990809, 19991108,
    19991231,
    20000207, 20000316, 20000421, 20000501, 20000518, 20000809, 20001026, 20001225,
    20001227,
    20010101, 20010124, 20010125, 20010306, 20010413, 20010501, 20010507, 20010809,
    20011114, 20011217, 20011225,
    20020101, 20020212, 20020213, 20020329, 20020501, 20020527, 20020809, 20021104,
    20021206, 20021225,
    20030101, 20030203, 20030212, 20030418, 20030501, 20030515, 20031024, 20031125,
    20031225,
    20040101, 20040122, 20040123, 20040202, 20040409, 20040602, 20040809, 20041111,
    20041115,
    20050121, 20050209, 20050210, 20050325, 20050502, 20050523, 20050809, 20051101,
    20051103, 20051226,
    20060102, 20060110, 20060130, 20060131, 20060414, 20060501, 20060512, 20060809,
    20061024, 20061225,
    20070101, 20070102, 20070219, 20070220, 20070406, 20070501, 20070531, 20070809,
    20071108, 20071220, 20071225,
    20080101, 20080207, 20080208, 20080321, 20080501, 20080519, 20081001, 20081027,
    20081208, 20081225,
    20090101, 20090126, 20090127, 20090410, 20090501, 20090810, 20090921, 20091127,
    20091225,
    20100101, 20100215, 20100216, 20100402, 20100528, 20100809, 20100910, 20101105,
    20101117,
    20110203, 20110204, 20110422, 20110502, 20110517, 20110809, 20110830, 20111026,
    20111107, 20111226,
    20120102, 20120123, 20120124, 20120406, 20120501, 20120809, 20120820, 20121026,
    20121113, 20121225,
    20130101, 20130211, 20130212, 20130329, 20130501, 20130524, 20130808, 20130809,
    20131015, 20131225,
    20140101, 20140131, 20140418, 20140501, 20140513, 20140728, 20141006, 20141022,
    20141225,
    20150101, 20150219, 20150220, 20150403, 20150501, 20150601, 20150717, 20150807,
    20150810, 20150911, 20150924, 20151110, 20151225,
    20160101, 20160208, 20160209, 20160325, 20160502, 20160706, 20160809, 20160912,
    20161226,
    20170102, 20170130, 20170414, 20170501, 20170510, 20170626, 20170809, 20170901,
    20171018, 20171225,
    20180101, 20180216, 20180330, 20180501, 20180529, 20180615, 20180809, 20180822,
    20181106, 20181225,
    20190101, 20190205, 20190206, 20190419, 20190501, 20190520, 20190605, 20190809,
    20190812, 20191028, 20191225,
    20200101, 20200127, 20200410, 20200501, 20200507, 20200525, 20200710, 20200731,
    20200810, 20201225}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
