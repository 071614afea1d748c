------------------------------ MODULE EX_ASEX ------------------------------
EXTENDS RuleTables

ASEX == [
  name |-> "ASEX",
  tz |-> "Europe/Athens",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(10, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 0)>>, <<YMD(20080929), HM(17, 20)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 6, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Epiphany
    [m |-> 3, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* National Holiday 1
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 8, d |-> 15, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Assumption Day
    [m |-> 10, d |-> 28, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* National Holiday 2
    [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20090101), to |-> PosInf, year |-> 0],   \* Christmas Eve
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Second Day of Christmas
  >>,
  adhoc |-> Days({
    19800218, 19800404, 19800407, 19800526,
    19810309, 19810424, 19810427, 19810615,
    19820301, 19820416, 19820419, 19820607,
    19830321, 19830506, 19830509, 19830627,
    19840305, 19840420, 19840423, 19840611,
    19850225, 19850412, 19850415, 19850603,
    19860317, 19860502, 19860505, 19860623,
    19870302, 19870417, 19870420, 19870608,
    19880222, 19880408, 19880411, 19880530,
    19890313, 19890428, 19890501, 19890619,
    19900226, 19900413, 19900416, 19900604,
    19910218, 19910405, 19910408, 19910527,
    19920309, 19920424, 19920427, 19920615,
    19930301, 19930416, 19930419, 19930607,
    19940314, 19940429, 19940502, 19940620,
    19950306, 19950421, 19950424, 19950612,
    19960226, 19960412, 19960415, 19960603,
    19970310, 19970425, 19970428, 19970616,
    19980302, 19980417, 19980420, 19980608,
    19990222, 19990409, 19990412, 19990531,
    20000313, 20000428, 20000501, 20000619,
    20010226, 20010413, 20010416, 20010604,
    20020318, 20020503, 20020506, 20020507, 20020624,
    20030310, 20030425, 20030428, 20030616,
    20040223, 20040409, 20040412, 20040531, 20040813,
    20050314, 20050429, 20050502, 20050620,
    20060306, 20060421, 20060424, 20060612,
    20070219, 20070406, 20070409, 20070528,
    20080304, 20080305, 20080310, 20080425, 20080428, 20080616,
    20090302, 20090417, 20090420, 20090608,
    20100215, 20100402, 20100405, 20100524,
    20110307, 20110422, 20110425, 20110613,
    20120227, 20120413, 20120416, 20120604,
    20130318, 20130503, 20130506, 20130507, 20130624,
    20140303, 20140418, 20140421, 20140609, 20141231,
    20150223, 20150410, 20150413, 20150601, 20150629, 20150630, 20150701, 20150702,
    20150703, 20150706, 20150707, 20150708, 20150709, 20150710, 20150713, 20150714,
    20150715, 20150716, 20150717, 20150720, 20150721, 20150722, 20150723, 20150724,
    20150727, 20150728, 20150729, 20150730, 20150731,
    20160314, 20160429, 20160502, 20160503, 20160620,
    20170227, 20170414, 20170417, 20170605,
    20180219, 20180406, 20180409, 20180528,
    20190311, 20190426, 20190429, 20190617,
    20200302, 20200417, 20200420, 20200608}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
