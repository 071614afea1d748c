------------------------------ MODULE EX_XNZE ------------------------------
EXTENDS RuleTables

XNZE == [
  name |-> "XNZE",
  tz |-> "NZ",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(10, 1)>>>>,
  closes |-> <<<<NegInf, HM(16, 45)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "next_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 2, off |-> <<>>, obs |-> "next_monday_or_tuesday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Day after New Year's Day
    [m |-> 2, d |-> 6, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20150101), year |-> 0],   \* Waitangi Day
    [m |-> 2, d |-> 6, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(20150101), to |-> PosInf, year |-> 0],   \* Waitangi Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Easter Monday
    [m |-> 4, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> YMD(20150101), year |-> 0],   \* Anzac Day
    [m |-> 4, d |-> 25, off |-> <<>>, obs |-> "weekend_to_monday", dow |-> {}, from |-> YMD(20150101), to |-> PosInf, year |-> 0],   \* Anzac Day
    [m |-> 6, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Queen's Birthday
    [m |-> 10, d |-> 1, off |-> <<<<"nth", MON, 4>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "next_monday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 26, off |-> <<>>, obs |-> "next_monday_or_tuesday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Boxing Day
  >>,
  adhoc |-> Days({
    19861222, 19861223, 19861224, 19861229, 19861230, 19861231,
    19901224, 19901231,
    19911227,
    19920103,
    19991231}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<<<HM(12, 45), <<
      [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "previous_workday", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0],   \* Business Day prior to Christmas Day
      [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "previous_workday", dow |-> {}, from |-> YMD(20110101), to |-> PosInf, year |-> 0]   \* Business Day prior to New Year's Day
    >>>>>>,
  sclosesA |-> <<>>
]
=============================================================================
