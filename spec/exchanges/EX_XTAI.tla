------------------------------ MODULE EX_XTAI ------------------------------
EXTENDS RuleTables

XTAI == [
  name |-> "XTAI",
  tz |-> "Asia/Taipei",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(13, 30)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "taiwan_makeup", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 2, d |-> 28, off |-> <<>>, obs |-> "taiwan_makeup", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Peace Memorial Day
    [m |-> 4, d |-> 4, off |-> <<>>, obs |-> "taiwan_makeup", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Women and Children's Day
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 10, d |-> 10, off |-> <<>>, obs |-> "taiwan_makeup", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* National Day of the Republic of China
  >>,
  adhoc |-> Days({
    19700204, 19700205, 19700206, 19700209, 19700210, 19700405, 19700608, 19700915,
    19710125, 19710126, 19710127, 19710128, 19710129, 19710405, 19710528, 19711003,
    19720211, 19720214, 19720215, 19720216, 19720217, 19720405, 19720615, 19720922,
    19730201, 19730202, 19730205, 19730206, 19730207, 19730405, 19730605, 19730911,
    19740121, 19740122, 19740123, 19740124, 19740125, 19740405, 19740624, 19740930,
    19750207, 19750210, 19750211, 19750212, 19750213, 19750405, 19750614, 19750920,
    19760129, 19760130, 19760202, 19760203, 19760204, 19760404, 19760602, 19760908,
    19770216, 19770217, 19770218, 19770221, 19770222, 19770405, 19770621, 19770927,
    19780203, 19780206, 19780207, 19780208, 19780209, 19780405, 19780610, 19780917,
    19790125, 19790126, 19790129, 19790130, 19790131, 19790405, 19790530, 19791005,
    19800214, 19800215, 19800218, 19800219, 19800220, 19800404, 19800617, 19800923,
    19810203, 19810204, 19810205, 19810206, 19810209, 19810405, 19810606, 19810912,
    19820121, 19820122, 19820125, 19820126, 19820127, 19820405, 19820625, 19821001,
    19830210, 19830211, 19830214, 19830215, 19830216, 19830405, 19830615, 19830921,
    19840131, 19840201, 19840202, 19840203, 19840206, 19840404, 19840604, 19840910,
    19850218, 19850219, 19850220, 19850221, 19850222, 19850405, 19850622, 19850929,
    19860206, 19860207, 19860210, 19860211, 19860212, 19860405, 19860611, 19860918,
    19870127, 19870128, 19870129, 19870130, 19870202, 19870405, 19870531, 19871007,
    19880215, 19880216, 19880217, 19880218, 19880219, 19880404, 19880618, 19880925,
    19890202, 19890203, 19890206, 19890207, 19890208, 19890405, 19890608, 19890914,
    19900125, 19900126, 19900129, 19900130, 19900131, 19900405, 19900528, 19901003,
    19910213, 19910214, 19910215, 19910218, 19910219, 19910405, 19910616, 19910922,
    19920131, 19920203, 19920204, 19920205, 19920206, 19920404, 19920605, 19920911,
    19930121, 19930122, 19930125, 19930126, 19930127, 19930405, 19930624, 19930930,
    19940208, 19940209, 19940210, 19940211, 19940214, 19940405, 19940613, 19940920,
    19950127, 19950130, 19950131, 19950201, 19950202, 19950405, 19950602, 19950909,
    19960215, 19960216, 19960219, 19960220, 19960221, 19960404, 19960620, 19960927,
    19970205, 19970206, 19970207, 19970210, 19970211, 19970405, 19970609, 19970916,
    19980126, 19980127, 19980128, 19980129, 19980130, 19980405, 19980530, 19981005,
    19990212, 19990215, 19990216, 19990217, 19990218, 19990405, 19990618, 19990924,
    20000203, 20000204, 20000207, 20000208, 20000209, 20000404, 20000606, 20000912,
    20010122, 20010123, 20010124, 20010125, 20010126, 20010405, 20010625, 20011001,
    20020207, 20020208, 20020211, 20020212, 20020213, 20020214, 20020215, 20020405,
    20020615, 20020906, 20020921,
    20030129, 20030130, 20030131, 20030203, 20030204, 20030205, 20030405, 20030604,
    20030911,
    20040119, 20040120, 20040121, 20040122, 20040123, 20040126, 20040404, 20040622,
    20040824, 20040825, 20040928, 20041025,
    20050204, 20050207, 20050208, 20050209, 20050210, 20050211, 20050405, 20050611,
    20050718, 20050805, 20050901, 20050918,
    20060126, 20060127, 20060130, 20060131, 20060201, 20060202, 20060405, 20060531,
    20061006, 20061009,
    20070215, 20070216, 20070219, 20070220, 20070221, 20070222, 20070223, 20070405,
    20070406, 20070618, 20070619, 20070918, 20070924, 20070925,
    20080204, 20080205, 20080206, 20080207, 20080208, 20080211, 20080404, 20080608,
    20080728, 20080914, 20080929,
    20090102, 20090122, 20090123, 20090126, 20090127, 20090128, 20090129, 20090130,
    20090404, 20090528, 20090529, 20090807, 20091003,
    20100211, 20100212, 20100215, 20100216, 20100217, 20100218, 20100219, 20100405,
    20100616, 20100922,
    20110131, 20110201, 20110202, 20110203, 20110204, 20110207, 20110404, 20110405,
    20110606, 20110912,
    20120119, 20120120, 20120123, 20120124, 20120125, 20120126, 20120127, 20120227,
    20120404, 20120623, 20120802, 20120930, 20121231,
    20130207, 20130208, 20130211, 20130212, 20130213, 20130214, 20130215, 20130404,
    20130405, 20130612, 20130821, 20130919, 20130920,
    20140128, 20140129, 20140130, 20140131, 20140203, 20140204, 20140404, 20140602,
    20140723, 20140908,
    20150216, 20150217, 20150218, 20150219, 20150220, 20150223, 20150406, 20150619,
    20150710, 20150928, 20150929,
    20160204, 20160205, 20160208, 20160209, 20160210, 20160211, 20160212, 20160404,
    20160405, 20160609, 20160610, 20160708, 20160915, 20160916, 20160927, 20160928,
    20170125, 20170126, 20170127, 20170130, 20170131, 20170201, 20170403, 20170404,
    20170529, 20170530, 20171004,
    20180213, 20180214, 20180215, 20180216, 20180219, 20180220, 20180405, 20180406,
    20180618, 20180924,
    20190131, 20190201, 20190204, 20190205, 20190206, 20190207, 20190208, 20190405,
    20190607, 20190809, 20190913, 20190930,
    20200121, 20200122, 20200123, 20200124, 20200127, 20200128, 20200129, 20200402,
    20200403, 20200625, 20200626, 20201001, 20201002,
    20210210, 20210211, 20210212, 20210215, 20210216, 20210405, 20210614, 20210920,
    20210921,
    20220128, 20220131, 20220201, 20220202, 20220203, 20220404, 20220405, 20220603,
    20220909,
    20230119, 20230120, 20230123, 20230124, 20230125, 20230405, 20230622, 20230623,
    20230929,
    20240208, 20240209, 20240212, 20240213, 20240214, 20240404, 20240405, 20240610,
    20240916, 20240917,
    20250127, 20250128, 20250129, 20250130, 20250131, 20250404, 20250530, 20251006,
    20260213, 20260216, 20260217, 20260218, 20260219, 20260406, 20260619, 20260925,
    20270204, 20270205, 20270208, 20270209, 20270210, 20270405, 20270609, 20270915,
    20280124, 20280125, 20280126, 20280127, 20280128, 20280403, 20280404, 20280529,
    20281002, 20281003,
    20290209, 20290212, 20290213, 20290214, 20290215, 20290404, 20290615, 20290921,
    20300131, 20300201, 20300204, 20300205, 20300206, 20300405, 20300605, 20300912,
    20300913,
    20310121, 20310122, 20310123, 20310124, 20310127, 20310404, 20310623, 20310624,
    20311001,
    20320209, 20320210, 20320211, 20320212, 20320213, 20320405, 20320611, 20320920,
    20330127, 20330128, 20330131, 20330201, 20330202, 20330404, 20330601, 20330908,
    20330909,
    20340216, 20340217, 20340220, 20340221, 20340222, 20340405, 20340619, 20340620,
    20340927,
    20350206, 20350207, 20350208, 20350209, 20350212, 20350405, 20350406, 20350611,
    20350917,
    20360124, 20360125, 20360128, 20360129, 20360130, 20360404, 20360530, 20361003,
    20370212, 20370213, 20370216, 20370217, 20370218, 20370403, 20370618, 20370619,
    20370924, 20370925,
    20380202, 20380203, 20380204, 20380205, 20380208, 20380405, 20380607, 20380913,
    20390120, 20390121, 20390124, 20390125, 20390126, 20390404, 20390405, 20390527,
    20391003,
    20400209, 20400210, 20400213, 20400214, 20400215, 20400404, 20400614, 20400615,
    20400920, 20400921,
    20410130, 20410131, 20410201, 20410204, 20410205, 20410404, 20410405, 20410603,
    20410909, 20410910,
    20420120, 20420121, 20420122, 20420123, 20420124, 20420404, 20420623, 20420929,
    20430206, 20430209, 20430210, 20430211, 20430212, 20430406, 20430611, 20430612,
    20430917, 20430918,
    20440128, 20440129, 20440201, 20440202, 20440203, 20440404, 20440530, 20440531,
    20441005,
    20450215, 20450216, 20450217, 20450220, 20450221, 20450403, 20450404, 20450619,
    20450925,
    20460202, 20460205, 20460206, 20460207, 20460208, 20460404, 20460608, 20460914,
    20470124, 20470125, 20470128, 20470129, 20470130, 20470405, 20470529, 20471004,
    20480212, 20480213, 20480214, 20480217, 20480218, 20480403, 20480615, 20480921,
    20480922,
    20490129, 20490201, 20490202, 20490203, 20490204, 20490405, 20490604, 20490910}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
