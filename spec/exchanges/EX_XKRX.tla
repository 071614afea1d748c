------------------------------ MODULE EX_XKRX ------------------------------
EXTENDS RuleTables

XKRX == [
  name |-> "XKRX",
  tz |-> "Asia/Seoul",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(15, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<>>,
  adhoc |-> Days({
    19860101, 19860102, 19860103, 19860310, 19860505, 19860516, 19860606, 19860717,
    19860815, 19860918, 19861001, 19861003, 19861009, 19861225, 19861229, 19861230,
    19861231,
    19870101, 19870102, 19870129, 19870310, 19870505, 19870717, 19871001, 19871007,
    19871008, 19871009, 19871225, 19871228, 19871229, 19871230, 19871231,
    19880101, 19880218, 19880301, 19880310, 19880405, 19880505, 19880523, 19880606,
    19880815, 19880926, 19881003, 19881227, 19881228, 19881229, 19881230,
    19890102, 19890103, 19890206, 19890301, 19890310, 19890405, 19890505, 19890512,
    19890606, 19890717, 19890815, 19890914, 19890915, 19891012, 19891225,
    19900101, 19900102, 19900126, 19900301, 19900405, 19900502, 19900606, 19900717,
    19900815, 19901001, 19901002, 19901003, 19901004, 19901009, 19901225, 19901227,
    19901228, 19901231,
    19910102, 19910214, 19910215, 19910301, 19910405, 19910521, 19910606, 19910717,
    19910815, 19910923, 19911003, 19911225, 19911227, 19911230, 19911231,
    19920101, 19920102, 19920203, 19920204, 19920205, 19920310, 19920505, 19920717,
    19920910, 19920911, 19921225, 19921228, 19921229, 19921230, 19921231,
    19930101, 19930122, 19930301, 19930310, 19930405, 19930505, 19930528, 19930707,
    19930929, 19930930, 19931001,
    19940103, 19940209, 19940210, 19940211, 19940214, 19940301, 19940405, 19940505,
    19940518, 19940520, 19940606, 19940815, 19940919, 19940920, 19940921, 19941003,
    19941229, 19941230,
    19950102, 19950130, 19950131, 19950201, 19950301, 19950405, 19950501, 19950505,
    19950606, 19950717, 19950815, 19950908, 19951003, 19951225, 19951229,
    19960101, 19960102, 19960301, 19960405, 19960501, 19960524, 19960606, 19960717,
    19960815, 19960926, 19960927, 19961003, 19961225, 19961230, 19961231,
    19970101, 19970207, 19970505, 19970606, 19970717, 19970815, 19970915, 19970916,
    19970917, 19971003, 19971225, 19971230, 19971231,
    19980101, 19980102, 19980127, 19980128, 19980129, 19980501, 19980505, 19980717,
    19981005, 19981006, 19981225, 19981229, 19981230, 19981231,
    19990101, 19990215, 19990216, 19990217, 19990301, 19990405, 19990505, 19990923,
    19990924, 19991229, 19991230, 19991231,
    20000103, 20000204, 20000301, 20000405, 20000413, 20000501, 20000505, 20000511,
    20000606, 20000717, 20000815, 20000911, 20000912, 20000913, 20001003, 20001225,
    20001227, 20001228, 20001229,
    20010101, 20010123, 20010124, 20010125, 20010301, 20010405, 20010501, 20010606,
    20010717, 20010815, 20011001, 20011002, 20011003, 20011225, 20011231,
    20020101, 20020211, 20020212, 20020213, 20020301, 20020405, 20020501, 20020606,
    20020613, 20020701, 20020717, 20020815, 20020920, 20021003, 20021219, 20021225,
    20021231,
    20030101, 20030131, 20030501, 20030505, 20030508, 20030606, 20030717, 20030815,
    20030910, 20030911, 20030912, 20031003, 20031225, 20031231,
    20040101, 20040121, 20040122, 20040123, 20040301, 20040405, 20040415, 20040505,
    20040526, 20040927, 20040928, 20040929, 20041231,
    20050208, 20050209, 20050210, 20050301, 20050405, 20050505, 20050606, 20050815,
    20050919, 20051003, 20051230,
    20060130, 20060301, 20060501, 20060505, 20060531, 20060606, 20060717, 20060815,
    20061003, 20061005, 20061006, 20061225, 20061229,
    20070101, 20070219, 20070301, 20070501, 20070524, 20070606, 20070717, 20070815,
    20070924, 20070925, 20070926, 20071003, 20071219, 20071225, 20071231,
    20080101, 20080206, 20080207, 20080208, 20080409, 20080501, 20080505, 20080512,
    20080606, 20080815, 20080915, 20081003, 20081225, 20081231,
    20090101, 20090126, 20090127, 20090501, 20090505, 20091002, 20091225, 20091231,
    20100101, 20100215, 20100301, 20100505, 20100521, 20100602, 20100921, 20100922,
    20100923, 20101231,
    20110202, 20110203, 20110204, 20110301, 20110505, 20110510, 20110606, 20110815,
    20110912, 20110913, 20111003, 20111230,
    20120123, 20120124, 20120301, 20120411, 20120501, 20120528, 20120606, 20120815,
    20121001, 20121003, 20121219, 20121225, 20121231,
    20130101, 20130211, 20130301, 20130501, 20130517, 20130606, 20130815, 20130918,
    20130919, 20130920, 20131003, 20131009, 20131225, 20131231,
    20140101, 20140130, 20140131, 20140501, 20140505, 20140506, 20140604, 20140606,
    20140815, 20140908, 20140909, 20140910, 20141003, 20141009, 20141225, 20141231,
    20150101, 20150218, 20150219, 20150220, 20150501, 20150505, 20150525, 20150814,
    20150928, 20150929, 20151009, 20151225, 20151231,
    20160101, 20160208, 20160209, 20160210, 20160301, 20160413, 20160505, 20160506,
    20160606, 20160815, 20160914, 20160915, 20160916, 20161003, 20161230,
    20170127, 20170130, 20170301, 20170501, 20170503, 20170505, 20170509, 20170606,
    20170815, 20171002, 20171003, 20171004, 20171005, 20171006, 20171009, 20171225,
    20171229,
    20180101, 20180215, 20180216, 20180301, 20180501, 20180507, 20180522, 20180606,
    20180613, 20180815, 20180924, 20180925, 20180926, 20181003, 20181009, 20181225,
    20181231,
    20190101, 20190204, 20190205, 20190206, 20190301, 20190501, 20190506, 20190606,
    20190815, 20190912, 20190913, 20191003, 20191009, 20191225, 20191231,
    20200101, 20200124, 20200127, 20200415, 20200430, 20200501, 20200505, 20200817,
    20200930, 20201001, 20201002, 20201009, 20201225, 20201231,
    20210101, 20210211, 20210212, 20210301, 20210505, 20210519, 20210920, 20210921,
    20210922, 20211231}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
