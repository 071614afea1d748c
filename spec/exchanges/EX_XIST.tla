------------------------------ MODULE EX_XIST ------------------------------
EXTENDS RuleTables

XIST == [
  name |-> "XIST",
  tz |-> "Europe/Istanbul",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(10, 1)>>>>,
  closes |-> <<<<NegInf, HM(18, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 4, d |-> 23, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* National Sovereignty and Children's Day
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20090101), to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 5, d |-> 19, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Commemoration of Attaturk, Youth and Sports Day
    [m |-> 7, d |-> 15, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20170101), to |-> PosInf, year |-> 0],   \* Democracy and National Unity Day
    [m |-> 8, d |-> 30, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Victory Day
    [m |-> 10, d |-> 29, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Republic Day
  >>,
  adhoc |-> Days({
    19810801, 19810802, 19810803, 19811008, 19811009, 19811010, 19811011,
    19820721, 19820722, 19820723, 19820927, 19820928, 19820929, 19820930,
    19830711, 19830712, 19830713, 19830917, 19830918, 19830919, 19830920,
    19840630, 19840701, 19840702, 19840905, 19840906, 19840907, 19840908,
    19850619, 19850620, 19850621, 19850826, 19850827, 19850828, 19850829,
    19860608, 19860609, 19860610, 19860815, 19860816, 19860817, 19860818,
    19870528, 19870529, 19870530, 19870804, 19870805, 19870806, 19870807,
    19880516, 19880517, 19880518, 19880723, 19880724, 19880725, 19880726,
    19890506, 19890507, 19890508, 19890713, 19890714, 19890715, 19890716,
    19900426, 19900427, 19900428, 19900702, 19900703, 19900704, 19900705,
    19910415, 19910416, 19910417, 19910622, 19910623, 19910624, 19910625,
    19920404, 19920405, 19920406, 19920611, 19920612, 19920613, 19920614,
    19930324, 19930325, 19930326, 19930531, 19930601, 19930602, 19930603,
    19940313, 19940314, 19940315, 19940520, 19940521, 19940522, 19940523,
    19950302, 19950303, 19950304, 19950509, 19950510, 19950511, 19950512,
    19960219, 19960220, 19960221, 19960427, 19960428, 19960429, 19960430,
    19970208, 19970209, 19970210, 19970417, 19970418, 19970419, 19970420,
    19980129, 19980130, 19980131, 19980407, 19980408, 19980409, 19980410,
    19990118, 19990119, 19990120, 19990327, 19990328, 19990329, 19990330,
    20000108, 20000109, 20000110, 20000316, 20000317, 20000318, 20000319, 20001227,
    20001228, 20001229,
    20010305, 20010306, 20010307, 20010308, 20011216, 20011217, 20011218,
    20020104, 20020222, 20020223, 20020224, 20020225, 20021205, 20021206, 20021207,
    20030210, 20030211, 20030212, 20030213, 20030214, 20031121, 20031124, 20031125,
    20031126, 20031127, 20031128,
    20040123, 20040201, 20040202, 20040203, 20040204, 20041114, 20041115, 20041116,
    20041230, 20041231,
    20050120, 20050121, 20050122, 20050123, 20051103, 20051104, 20051105,
    20060109, 20060110, 20060111, 20060112, 20060113, 20061023, 20061024, 20061025,
    20061231,
    20070101, 20070102, 20070103, 20071012, 20071013, 20071014, 20071220, 20071221,
    20071222, 20071223,
    20080930, 20081001, 20081002, 20081208, 20081209, 20081210, 20081211,
    20090920, 20090921, 20090922, 20091127, 20091128, 20091129, 20091130,
    20100909, 20100910, 20100911, 20101116, 20101117, 20101118, 20101119,
    20110830, 20110831, 20110901, 20111106, 20111107, 20111108, 20111109,
    20120819, 20120820, 20120821, 20121025, 20121026, 20121027, 20121028,
    20130808, 20130809, 20130810, 20131015, 20131016, 20131017, 20131018,
    20140728, 20140729, 20140730, 20141004, 20141005, 20141006, 20141007,
    20150717, 20150718, 20150719, 20150924, 20150925, 20150926, 20150927,
    20160705, 20160706, 20160707, 20160912, 20160913, 20160914, 20160915,
    20170625, 20170626, 20170627, 20170901, 20170902, 20170903, 20170904,
    20180615, 20180616, 20180617, 20180821, 20180822, 20180823, 20180824,
    20190604, 20190605, 20190606, 20190811, 20190812, 20190813, 20190814,
    20200524, 20200525, 20200526, 20200731, 20200801, 20200802, 20200803,
    20210513, 20210514, 20210515, 20210720, 20210721, 20210722, 20210723,
    20220502, 20220503, 20220504, 20220709, 20220710, 20220711, 20220712,
    20230421, 20230422, 20230423, 20230628, 20230629, 20230630, 20230701,
    20240410, 20240411, 20240412, 20240616, 20240617, 20240618, 20240619,
    20250330, 20250331, 20250401, 20250606, 20250607, 20250608, 20250609,
    20260320, 20260321, 20260322, 20260527, 20260528, 20260529, 20260530,
    20270309, 20270310, 20270311, 20270516, 20270517, 20270518, 20270519,
    20280226, 20280227, 20280228, 20280505, 20280506, 20280507, 20280508,
    20290214, 20290215, 20290216, 20290424, 20290425, 20290426, 20290427,
    20300204, 20300205, 20300206, 20300413, 20300414, 20300415, 20300416,
    20310124, 20310125, 20310126, 20310402, 20310403, 20310404, 20310405,
    20320114, 20320115, 20320116, 20320322, 20320323, 20320324, 20320325,
    20330102, 20330103, 20330104, 20330311, 20330312, 20330313, 20330314, 20331223,
    20331224, 20331225,
    20340301, 20340302, 20340303, 20340304, 20341212, 20341213, 20341214,
    20350218, 20350219, 20350220, 20350221, 20351201, 20351202, 20351203,
    20360207, 20360208, 20360209, 20360210, 20361119, 20361120, 20361121,
    20370126, 20370127, 20370128, 20370129, 20371108, 20371109, 20371110,
    20380116, 20380117, 20380118, 20380119, 20381029, 20381030, 20381031,
    20390105, 20390106, 20390107, 20390108, 20391019, 20391020, 20391021, 20391226,
    20391227, 20391228, 20391229,
    20401007, 20401008, 20401009, 20401214, 20401215, 20401216, 20401217,
    20410926, 20410927, 20410928, 20411204, 20411205, 20411206, 20411207,
    20420915, 20420916, 20420917, 20421123, 20421124, 20421125, 20421126,
    20430904, 20430905, 20430906, 20431112, 20431113, 20431114, 20431115,
    20440824, 20440825, 20440826, 20441031, 20441101, 20441102, 20441103,
    20450814, 20450815, 20450816, 20451021, 20451022, 20451023, 20451024,
    20460803, 20460804, 20460805, 20461010, 20461011, 20461012, 20461013,
    20470724, 20470725, 20470726, 20470930, 20471001, 20471002, 20471003,
    20480712, 20480713, 20480714, 20480919, 20480920, 20480921, 20480922,
    20490701, 20490702, 20490703, 20490908, 20490909, 20490910, 20490911}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(12, 30), <<
      [m |-> 10, d |-> 28, off |-> <<>>, obs |-> "", dow |-> {MON, TUE, WED, THU, FRI}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Republic Day half day
    >>>>>>,
  sclosesA |-> <<<<HM(12, 30), Days({
      19810731, 19811007,
      19820720,
      19830916,
      19840629, 19840904,
      19850618,
      19860814,
      19870527, 19870803,
      19880722,
      19890505, 19890712,
      19900425,
      19910621,
      19920403, 19920610,
      19930323,
      19950301, 19950508,
      19960426,
      19970207, 19970416,
      19980128, 19980406,
      19990326,
      20000107, 20000315, 20001226,
      20020221, 20021204,
      20050119, 20051102,
      20071011, 20071219,
      20080929,
      20091126,
      20100908, 20101115,
      20110829,
      20121024,
      20130807, 20131014,
      20141003,
      20150716, 20150923,
      20160704,
      20170831,
      20180614, 20180820,
      20190603,
      20200730,
      20210512, 20210719,
      20220708,
      20230420, 20230627,
      20240409,
      20250605,
      20260319, 20260526,
      20270308,
      20280225, 20280504,
      20290213, 20290423,
      20300412,
      20310123, 20310401,
      20320113,
      20330310, 20331222,
      20340228, 20341211,
      20351130,
      20360206, 20361118,
      20380115, 20381028,
      20390104, 20391018,
      20401213,
      20410925, 20411203,
      20430903, 20431111,
      20440823,
      20451020,
      20460802, 20461009,
      20470723,
      20480918,
      20490630, 20490907})>>>>
]
=============================================================================
