------------------------------ MODULE EX_XHKG ------------------------------
EXTENDS RuleTables

XHKG == [
  name |-> "XHKG",
  tz |-> "Asia/Hong_Kong",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(10, 1)>>, <<YMD(20110307), HM(9, 31)>>>>,
  closes |-> <<<<NegInf, HM(16, 0)>>>>,
  bstarts |-> <<<<NegInf, HM(12, 1)>>>>,
  bends |-> <<<<NegInf, HM(13, 0)>>>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(19990501), to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 7, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(19970701), to |-> PosInf, year |-> 0],   \* Hong Kong Special Region Establishment Day
    [m |-> 8, d |-> 20, off |-> <<<<"lastwd", MON>>>>, obs |-> "", dow |-> {}, from |-> YMD(19450830), to |-> YMD(19970701), year |-> 0],   \* Commemorating the allied victory
    [m |-> 7, d |-> 31, off |-> <<<<"weekof", 0, MON>>>>, obs |-> "", dow |-> {}, from |-> YMD(19600801), to |-> YMD(19830101), year |-> 0],   \* I dont know these days, please tell me
    [m |-> 10, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(19970701), to |-> PosInf, year |-> 0],   \* National Day
    [m |-> 6, d |-> 10, off |-> <<>>, obs |-> "queens_birthday", dow |-> {}, from |-> YMD(19830101), to |-> YMD(19970601), year |-> 0],   \* Queen's Birthday
    [m |-> 4, d |-> 21, off |-> <<>>, obs |-> "queens_birthday", dow |-> {}, from |-> YMD(19260421), to |-> YMD(19830101), year |-> 0],   \* Queen's Birthday
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 27, off |-> <<>>, obs |-> "", dow |-> {MON, TUE}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Weekend Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "boxing_day_hk", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Boxing Day
  >>,
  adhoc |-> Days({
    19700206, 19700207, 19700208, 19700406, 19700512, 19700608, 19700701, 19700716,
    19700914, 19700916, 19701008,
    19710127, 19710128, 19710129, 19710322, 19710405, 19710503, 19710528, 19710701,
    19710722, 19710831, 19711004, 19711027, 19711206, 19711220,
    19720215, 19720216, 19720217, 19720405, 19720520, 19720615, 19720923, 19721016,
    19730202, 19730203, 19730204, 19730205, 19730405, 19730416, 19730510, 19730605,
    19730702, 19730717, 19730912, 19731004,
    19740123, 19740124, 19740125, 19740405, 19740425, 19740429, 19740624, 19740701,
    19741002, 19741023,
    19750211, 19750212, 19750213, 19750405, 19750519, 19750614, 19750701, 19750728,
    19750921, 19751013, 19751014,
    19760130, 19760131, 19760201, 19760202, 19760405, 19760506, 19760602, 19760701,
    19760909, 19761101,
    19770218, 19770219, 19770220, 19770405, 19770525, 19770621, 19770701, 19770928,
    19771021,
    19780207, 19780208, 19780209, 19780405, 19780515, 19780610, 19780726, 19780727,
    19780918, 19781010,
    19790126, 19790128, 19790129, 19790130, 19790405, 19790503, 19790530, 19790702,
    19790802, 19791006, 19791029,
    19800215, 19800216, 19800217, 19800218, 19800404, 19800521, 19800617, 19800701,
    19800722, 19800924, 19801017,
    19810205, 19810206, 19810207, 19810406, 19810427, 19810511, 19810606, 19810701,
    19810706, 19810707, 19810729, 19810913, 19811006,
    19820125, 19820126, 19820127, 19820405, 19820501, 19820625, 19820701, 19821002,
    19821025,
    19830213, 19830214, 19830215, 19830405, 19830520, 19830615, 19830909, 19830922,
    19831014,
    19840202, 19840203, 19840204, 19840404, 19840508, 19840604, 19840911, 19841003,
    19850220, 19850221, 19850222, 19850405, 19850527, 19850622, 19850624, 19850729,
    19850930, 19851022,
    19860209, 19860210, 19860211, 19860401, 19860405, 19860516, 19860611, 19860919,
    19861013, 19861022,
    19870129, 19870130, 19870131, 19870406, 19870505, 19870601, 19871008, 19871020,
    19871021, 19871022, 19871023, 19871031,
    19880217, 19880218, 19880219, 19880405, 19880523, 19880618, 19880926, 19881019,
    19890206, 19890207, 19890208, 19890405, 19890512, 19890608, 19890915, 19891009,
    19900126, 19900127, 19900128, 19900129, 19900405, 19900502, 19900528, 19901004,
    19901026,
    19910215, 19910216, 19910217, 19910405, 19910521, 19910617, 19910618, 19910923,
    19911016,
    19920204, 19920205, 19920206, 19920404, 19920511, 19920605, 19920722, 19920912,
    19921005,
    19930122, 19930123, 19930124, 19930125, 19930405, 19930528, 19930624, 19930917,
    19931002, 19931023,
    19940210, 19940211, 19940212, 19940405, 19940518, 19940613, 19940614, 19940921,
    19941013,
    19950131, 19950201, 19950202, 19950405, 19950508, 19950602, 19950910, 19951101,
    19960219, 19960220, 19960221, 19960404, 19960524, 19960620, 19960928, 19961021,
    19970207, 19970208, 19970209, 19970405, 19970514, 19970609, 19970630, 19970702,
    19970818, 19970917, 19971002, 19971010,
    19980128, 19980129, 19980130, 19980406, 19980504, 19980530, 19980817, 19981002,
    19981006, 19981028,
    19990216, 19990217, 19990218, 19990406, 19990522, 19990618, 19990916, 19990925,
    19991018, 19991231,
    20000204, 20000205, 20000206, 20000207, 20000404, 20000511, 20000606, 20000913,
    20001006,
    20010124, 20010125, 20010126, 20010405, 20010430, 20010625, 20010706, 20010725,
    20011002, 20011025,
    20020212, 20020213, 20020214, 20020405, 20020520, 20020615, 20020922, 20021014,
    20030131, 20030201, 20030202, 20030203, 20030405, 20030508, 20030604, 20030912,
    20031004,
    20040122, 20040123, 20040124, 20040405, 20040526, 20040622, 20040929, 20041022,
    20050209, 20050210, 20050211, 20050405, 20050516, 20050611, 20050919, 20051011,
    20060129, 20060130, 20060131, 20060405, 20060505, 20060531, 20061007, 20061030,
    20070218, 20070219, 20070220, 20070405, 20070524, 20070619, 20070926, 20071019,
    20080207, 20080208, 20080209, 20080404, 20080512, 20080609, 20080806, 20080822,
    20080915, 20081007,
    20090126, 20090127, 20090128, 20090404, 20090502, 20090528, 20091004, 20091026,
    20100214, 20100215, 20100216, 20100406, 20100521, 20100616, 20100923, 20101016,
    20110203, 20110204, 20110205, 20110405, 20110510, 20110606, 20110913, 20110929,
    20111005,
    20120123, 20120124, 20120125, 20120404, 20120428, 20120623, 20121002, 20121023,
    20130210, 20130211, 20130212, 20130213, 20130404, 20130517, 20130612, 20130814,
    20130920, 20131014,
    20140131, 20140201, 20140202, 20140203, 20140405, 20140506, 20140602, 20140909,
    20141002,
    20150219, 20150220, 20150221, 20150407, 20150525, 20150620, 20150903, 20150928,
    20151021,
    20160208, 20160209, 20160210, 20160404, 20160514, 20160609, 20160802, 20160916,
    20161010, 20161021,
    20170128, 20170129, 20170130, 20170131, 20170404, 20170503, 20170530, 20170823,
    20171005, 20171028,
    20180216, 20180217, 20180218, 20180219, 20180405, 20180522, 20180618, 20180925,
    20181017,
    20190205, 20190206, 20190207, 20190405, 20190513, 20190607, 20190914, 20191007,
    20200125, 20200126, 20200127, 20200128, 20200404, 20200430, 20200625, 20201002,
    20201026,
    20210212, 20210213, 20210214, 20210215, 20210406, 20210519, 20210614, 20210922,
    20211014,
    20220201, 20220202, 20220203, 20220405, 20220509, 20220603, 20220911, 20221004,
    20230122, 20230123, 20230124, 20230125, 20230405, 20230526, 20230622, 20230930,
    20231023,
    20240210, 20240211, 20240212, 20240213, 20240404, 20240515, 20240610, 20240918,
    20241011,
    20250129, 20250130, 20250131, 20250404, 20250505, 20250531, 20251007, 20251029,
    20260217, 20260218, 20260219, 20260407, 20260525, 20260619, 20260926, 20261019,
    20270206, 20270207, 20270208, 20270209, 20270405, 20270513, 20270609, 20270916,
    20271008,
    20280126, 20280127, 20280128, 20280404, 20280502, 20280529, 20281004, 20281026,
    20290213, 20290214, 20290215, 20290404, 20290521, 20290616, 20290923, 20291016,
    20300203, 20300204, 20300205, 20300206, 20300405, 20300509, 20300605, 20300913,
    20301005,
    20310123, 20310124, 20310125, 20310405, 20310528, 20310624, 20311002, 20311024,
    20320211, 20320212, 20320213, 20320405, 20320517, 20320612, 20320920, 20321012,
    20330131, 20330201, 20330202, 20330404, 20330506, 20330601, 20330909, 20331001,
    20340219, 20340220, 20340221, 20340222, 20340405, 20340525, 20340620, 20340928,
    20341020,
    20350208, 20350209, 20350210, 20350405, 20350515, 20350611, 20350917, 20351009,
    20360128, 20360129, 20360130, 20360404, 20360503, 20360530, 20361005, 20361027,
    20370215, 20370216, 20370217, 20370218, 20370404, 20370522, 20370618, 20370925,
    20371017,
    20380204, 20380205, 20380206, 20380405, 20380511, 20380607, 20380914, 20381007,
    20390124, 20390125, 20390126, 20390405, 20390430, 20390527, 20391003, 20391026,
    20400212, 20400213, 20400214, 20400215, 20400404, 20400518, 20400614, 20400921,
    20401015,
    20410201, 20410202, 20410203, 20410204, 20410404, 20410507, 20410603, 20410911,
    20411003,
    20420122, 20420123, 20420124, 20420404, 20420526, 20420623, 20420929, 20421022,
    20430210, 20430211, 20430212, 20430406, 20430516, 20430611, 20430918, 20431012,
    20440130, 20440131, 20440201, 20440202, 20440404, 20440505, 20440531, 20441006,
    20441029,
    20450217, 20450218, 20450219, 20450220, 20450404, 20450524, 20450619, 20450926,
    20451018,
    20460206, 20460207, 20460208, 20460404, 20460514, 20460608, 20460916, 20461008,
    20470126, 20470127, 20470128, 20470129, 20470405, 20470502, 20470529, 20471005,
    20471028,
    20480214, 20480215, 20480216, 20480217, 20480404, 20480520, 20480615, 20480923,
    20481016,
    20490202, 20490203, 20490204, 20490405, 20490510, 20490604, 20490912, 20491005}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(12, 30), <<
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> YMD(19991201), year |-> 0],   \* New Year's Eve
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> YMD(20001201), to |-> YMD(20110307), year |-> 0],   \* New Year's Eve
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> YMD(20110307), year |-> 0]   \* Christmas Eve
    >>>>, <<HM(12, 0), <<
      [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> YMD(20110307), to |-> PosInf, year |-> 0],   \* New Year's Eve
      [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> YMD(20110307), to |-> PosInf, year |-> 0]   \* Christmas Eve
    >>>>>>,
  sclosesA |-> <<<<HM(12, 30), {}>>, <<HM(12, 0), Days({
      20140130,
      20150218,
      20170127,
      20180215,
      20190204,
      20200124,
      20210211,
      20220131,
      20240209,
      20250128,
      20260216,
      20270205,
      20280125,
      20290212,
      20310122,
      20320210,
      20350207,
      20380203,
      20410131,
      20420121,
      20430209,
      20440129,
      20450216,
      20460205,
      20470125,
      20480213,
      20490201})>>>>
]
=============================================================================
