------------------------------ MODULE EX_us_futures ------------------------------
EXTENDS RuleTables

us_futures == [
  name |-> "us_futures",
  tz |-> "America/New_York",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(18, 1)>>>>,
  closes |-> <<<<NegInf, HM(18, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> -1, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "sunday_to_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "nearest_workday", dow |-> {}, from |-> YMD(19540101), to |-> PosInf, year |-> 0]   \* Christmas
  >>,
  adhoc |-> {},
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
