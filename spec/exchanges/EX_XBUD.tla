------------------------------ MODULE EX_XBUD ------------------------------
EXTENDS RuleTables

XBUD == [
  name |-> "XBUD",
  tz |-> "Europe/Budapest",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "four_day_weekend", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 3, d |-> 15, off |-> <<>>, obs |-> "four_day_weekend", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* National Holiday 1
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> YMD(20120101), to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "four_day_weekend", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 50>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Whit Monday
    [m |-> 8, d |-> 20, off |-> <<>>, obs |-> "four_day_weekend", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* St. Stephen's Day
    [m |-> 10, d |-> 23, off |-> <<>>, obs |-> "four_day_weekend", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* National Holiday 2
    [m |-> 11, d |-> 1, off |-> <<>>, obs |-> "four_day_weekend", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* All Saints Day
    [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas Eve
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20130101), year |-> 0],   \* Second Day of Christmas (w/ no added Friday off)
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "four_day_weekend", dow |-> {}, from |-> YMD(20130101), to |-> PosInf, year |-> 0],   \* Second Day of Christmas (w/ added Friday off)
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> {},
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
