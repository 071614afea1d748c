------------------------------ MODULE EX_XKLS ------------------------------
EXTENDS RuleTables

XKLS == [
  name |-> "XKLS",
  tz |-> "Asia/Kuala_Lumpur",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 2, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Federal Territory Day
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 8, d |-> 31, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* National Day
    [m |-> 9, d |-> 16, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> YMD(20100101), to |-> PosInf, year |-> 0],   \* Malaysia Day
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Christmas
  >>,
  adhoc |-> Days({
    19700206, 19700207,
    19710127, 19710128,
    19720215, 19720216,
    19730203, 19730205,
    19740123, 19740124,
    19750211, 19750212,
    19760131, 19760202,
    19770218, 19770219,
    19780207, 19780208,
    19790129, 19790130,
    19800216, 19800218, 19801110,
    19810119, 19810205, 19810206, 19810801, 19810803, 19811008, 19811028,
    19820107, 19820125, 19820126, 19820721, 19820722, 19820927, 19821018, 19821227,
    19830214, 19830215, 19830711, 19830712, 19830917, 19831007, 19831216,
    19840202, 19840203, 19840630, 19840702, 19840905, 19840926, 19841204,
    19850220, 19850221, 19850619, 19850620, 19850826, 19850916, 19851125,
    19860210, 19860211, 19860609, 19860610, 19860815, 19860905, 19861114,
    19870129, 19870130, 19870528, 19870529, 19870804, 19870825, 19871103,
    19880217, 19880218, 19880516, 19880517, 19880723, 19880813, 19881022,
    19890206, 19890207, 19890506, 19890508, 19890713, 19890802, 19891011,
    19900127, 19900129, 19900426, 19900427, 19900702, 19900723, 19901001,
    19910215, 19910216, 19910415, 19910416, 19910622, 19910712, 19910920,
    19920204, 19920205, 19920404, 19920406, 19920611, 19920701, 19920909,
    19930123, 19930125, 19930324, 19930325, 19930531, 19930621, 19930830,
    19940210, 19940211, 19940314, 19940315, 19940520, 19940610, 19940819,
    19950131, 19950201, 19950302, 19950303, 19950509, 19950530, 19950808,
    19960219, 19960220, 19960427, 19960518, 19960727,
    19970207, 19970208, 19970210, 19970417, 19970507, 19970716,
    19980128, 19980129, 19980130, 19980407, 19980427, 19980706,
    19990118, 19990119, 19990216, 19990217, 19990327, 19990417, 19990626,
    20000108, 20000110, 20000205, 20000207, 20000316, 20000406, 20000614, 20001227,
    20001228,
    20010124, 20010125, 20010305, 20010326, 20010604, 20011217, 20011218,
    20020211, 20020212, 20020213, 20020223, 20020315, 20020425, 20020527, 20021104,
    20021205, 20021206,
    20030131, 20030201, 20030203, 20030204, 20030212, 20030304, 20030514, 20030515,
    20031024, 20031124, 20031125, 20031126,
    20040121, 20040122, 20040123, 20040203, 20040223, 20040503, 20040504, 20041111,
    20041112, 20041115, 20041116,
    20050121, 20050209, 20050210, 20050211, 20050421, 20050523, 20051101, 20051103,
    20051104,
    20060110, 20060130, 20060131, 20060201, 20060202, 20060411, 20060512, 20061023,
    20061024, 20061025,
    20070102, 20070120, 20070219, 20070220, 20070331, 20070426, 20070502, 20071013,
    20071015, 20071108, 20071220,
    20080110, 20080123, 20080207, 20080208, 20080320, 20080519, 20080703, 20081001,
    20081002, 20081027, 20081208, 20081229,
    20090126, 20090127, 20090209, 20090309, 20090921, 20090922, 20091127, 20091218,
    20100130, 20100215, 20100216, 20100226, 20100528, 20100910, 20100911, 20101105,
    20101117, 20101207, 20101231,
    20110120, 20110203, 20110204, 20110215, 20110517, 20110830, 20110831, 20110901,
    20111026, 20111107, 20111128,
    20120123, 20120124, 20120206, 20120207, 20120411, 20120820, 20120821, 20121026,
    20121113, 20121115,
    20130124, 20130128, 20130211, 20130212, 20130524, 20130808, 20130809, 20131015,
    20131105,
    20140114, 20140117, 20140131, 20140201, 20140203, 20140513, 20140715, 20140728,
    20140729, 20141006, 20141022, 20141025,
    20150203, 20150219, 20150220, 20150504, 20150704, 20150717, 20150718, 20150924,
    20151014, 20151110, 20151224,
    20160125, 20160208, 20160209, 20160622, 20160706, 20160707, 20160912, 20161003,
    20161212,
    20170128, 20170130, 20170209, 20170424, 20170510, 20170612, 20170626, 20170627,
    20170901, 20170904, 20170922, 20171018, 20171201,
    20180131, 20180216, 20180217, 20180509, 20180510, 20180511, 20180529, 20180602,
    20180615, 20180616, 20180822, 20180910, 20180911, 20181106, 20181120,
    20190121, 20190205, 20190206, 20190520, 20190522, 20190605, 20190606, 20190730,
    20190812, 20190902, 20190909, 20191028, 20191109,
    20200125, 20200127, 20200507, 20200511, 20200525, 20200526, 20200731, 20200820,
    20201029,
    20210212, 20210213, 20210429, 20210513, 20210514, 20210720, 20210809, 20211018,
    20220201, 20220202, 20220418, 20220502, 20220503, 20220709, 20220730, 20221008,
    20230123, 20230124, 20230408, 20230421, 20230422, 20230628, 20230719, 20230927,
    20240210, 20240212, 20240327, 20240410, 20240411, 20240617, 20240708, 20240916,
    20250129, 20250130, 20250317, 20250331, 20250401, 20250606, 20250626, 20250904,
    20260217, 20260218, 20260306, 20260320, 20260321, 20260527, 20260616, 20260825,
    20270206, 20270208, 20270224, 20270309, 20270310, 20270517, 20270607, 20270814,
    20280126, 20280127, 20280214, 20280226, 20280228, 20280505, 20280525, 20280803,
    20290201, 20290213, 20290214, 20290215, 20290424, 20290514, 20290724,
    20300121, 20300204, 20300205, 20300413, 20300503, 20300713,
    20310111, 20310123, 20310124, 20310125, 20310402, 20310423, 20310702, 20311231,
    20320114, 20320115, 20320211, 20320212, 20320322, 20320412, 20320621, 20321220,
    20330103, 20330104, 20330131, 20330201, 20330311, 20330401, 20330609, 20331209,
    20331223, 20331224,
    20340220, 20340221, 20340301, 20340321, 20340530, 20341128, 20341212, 20341213,
    20350208, 20350209, 20350219, 20350312, 20350521, 20351117, 20351201, 20351203,
    20360128, 20360129, 20360207, 20360228, 20360508, 20361105, 20361119, 20361120,
    20370126, 20370216, 20370217, 20370428, 20371026, 20371109, 20371110,
    20380116, 20380204, 20380205, 20380417, 20381016, 20381029, 20381030,
    20390105, 20390124, 20390125, 20390126, 20390406, 20391005, 20391019, 20391020,
    20391226,
    20400116, 20400213, 20400214, 20400326, 20400924, 20401008, 20401009, 20401214,
    20410104, 20410201, 20410202, 20410315, 20410913, 20410926, 20410927, 20411204,
    20411224,
    20420122, 20420123, 20420304, 20420902, 20420915, 20420916, 20421124, 20421215,
    20430210, 20430211, 20430223, 20430822, 20430904, 20430905, 20431112, 20431203,
    20440130, 20440201, 20440211, 20440811, 20440824, 20440825, 20441031, 20441121,
    20450130, 20450217, 20450218, 20450731, 20450814, 20450815, 20451021, 20451110,
    20460119, 20460206, 20460207, 20460721, 20460803, 20460804, 20461010, 20461031,
    20470108, 20470126, 20470128, 20470710, 20470724, 20470725, 20470930, 20471021,
    20471230,
    20480214, 20480215, 20480629, 20480713, 20480714, 20480919, 20481009, 20481218,
    20490202, 20490203, 20490618, 20490701, 20490702, 20490908}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<<<HM(12, 30), Days({
      19700205,
      19710126,
      19720214,
      19730202,
      19740122,
      19750210,
      19760130,
      19770217,
      19780206,
      19800215,
      19810204, 19810731,
      19820720,
      19840201, 19840629,
      19850219, 19850618,
      19870128, 19870527,
      19880216,
      19890505,
      19900126, 19900425,
      19910214,
      19920203, 19920403,
      19930122, 19930323,
      19940209,
      19950130, 19950301,
      19970206,
      19980127,
      19990215,
      20000107, 20000204, 20001226,
      20010123,
      20021204,
      20050208, 20051102,
      20071012,
      20080206, 20080930,
      20100909,
      20110202, 20110829,
      20130807,
      20140130,
      20150218, 20150716,
      20160705,
      20170127,
      20180215, 20180614,
      20190204, 20190604,
      20200124,
      20210211, 20210512,
      20220131,
      20230420,
      20240209, 20240409,
      20250128,
      20260216, 20260319,
      20270205, 20270308,
      20280125, 20280225,
      20290212, 20290213,
      20310122, 20310123,
      20320113, 20320210,
      20331222,
      20341211,
      20350207, 20351130,
      20361118,
      20380203, 20381028,
      20391018,
      20410131, 20410925,
      20420121,
      20430209, 20430903,
      20440129, 20440823,
      20450216,
      20460205, 20460802,
      20470125, 20470723,
      20480213,
      20490201, 20490630})>>>>
]
=============================================================================
