------------------------------ MODULE EX_XBOM ------------------------------
EXTENDS RuleTables

XBOM == [
  name |-> "XBOM",
  tz |-> "Asia/Calcutta",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 16)>>>>,
  closes |-> <<<<NegInf, HM(15, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<>>,
  adhoc |-> Days({
    19970123, 19970307, 19970324, 19970408, 19970414, 19970416, 19970418, 19970501,
    19970508, 19970815, 19970818, 19970825, 19971002, 19971028, 19971029, 19971031,
    19971225,
    19980409, 19980414, 19980428, 19981225,
    19990101, 19990120, 19990126, 19990302, 19990318, 19990325, 19990329, 19990402,
    19990414, 19990427, 19990430, 19990913, 19991019, 19991108, 19991110, 19991123,
    19991231,
    20000126, 20000317, 20000320, 20000414, 20000421, 20000501, 20000815, 20000901,
    20001002, 20001225,
    20010101, 20010126, 20010306, 20010405, 20010413, 20010501, 20010815, 20010822,
    20011002, 20011026, 20011116, 20011130, 20011217, 20011225,
    20020325, 20020329, 20020501, 20020815, 20020910, 20021002, 20021015, 20021106,
    20021119, 20021225,
    20030213, 20030314, 20030318, 20030414, 20030418, 20030501, 20030815, 20031002,
    20031126, 20031225,
    20040101, 20040126, 20040202, 20040302, 20040409, 20040414, 20040426, 20041013,
    20041022, 20041115, 20041126,
    20050121, 20050126, 20050325, 20050414, 20050728, 20050815, 20050907, 20051012,
    20051103, 20051104, 20051115,
    20060111, 20060126, 20060209, 20060315, 20060406, 20060411, 20060414, 20060501,
    20060815, 20061002, 20061024, 20061025, 20061225,
    20070101, 20070126, 20070130, 20070216, 20070327, 20070406, 20070501, 20070502,
    20070815, 20071002, 20071221, 20071225,
    20080306, 20080320, 20080321, 20080414, 20080418, 20080501, 20080519, 20080815,
    20080903, 20081002, 20081009, 20081030, 20081113, 20081127, 20081209, 20081225,
    20090108, 20090126, 20090223, 20090310, 20090311, 20090403, 20090407, 20090410,
    20090414, 20090430, 20090501, 20090921, 20090928, 20091002, 20091013, 20091019,
    20091102, 20091225, 20091228,
    20100101, 20100126, 20100212, 20100301, 20100324, 20100402, 20100414, 20100910,
    20101117, 20101217,
    20110126, 20110302, 20110412, 20110414, 20110422, 20110815, 20110831, 20110901,
    20111006, 20111027, 20111107, 20111110, 20111206,
    20120126, 20120220, 20120308, 20120405, 20120406, 20120501, 20120815, 20120820,
    20120919, 20121002, 20121024, 20121114, 20121128, 20121225,
    20130327, 20130329, 20130419, 20130424, 20130501, 20130809, 20130815, 20130909,
    20131002, 20131016, 20131104, 20131115, 20131225,
    20140227, 20140317, 20140408, 20140414, 20140418, 20140424, 20140501, 20140729,
    20140815, 20140829, 20141002, 20141003, 20141006, 20141015, 20141024, 20141104,
    20141106, 20141225,
    20150126, 20150217, 20150306, 20150402, 20150403, 20150414, 20150501, 20150917,
    20150925, 20151002, 20151022, 20151112, 20151125, 20151225,
    20160126, 20160307, 20160324, 20160325, 20160414, 20160415, 20160419, 20160706,
    20160815, 20160905, 20160913, 20161011, 20161012, 20161031, 20161114,
    20170126, 20170224, 20170313, 20170404, 20170414, 20170501, 20170626, 20170815,
    20170825, 20171002, 20171020, 20171225,
    20180126, 20180213, 20180302, 20180329, 20180330, 20180501, 20180815, 20180822,
    20180913, 20180920, 20181002, 20181018, 20181108, 20181123, 20181225,
    20190126, 20190302, 20190304, 20190321, 20190417, 20190419, 20190429, 20190501,
    20190605, 20190812, 20190815, 20190902, 20190910, 20191002, 20191008, 20191021,
    20191028, 20191112, 20191225,
    20200221, 20200310, 20200402, 20200406, 20200410, 20200414, 20200501, 20200731,
    20201002, 20201116, 20201130, 20201225}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
