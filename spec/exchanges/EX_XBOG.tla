------------------------------ MODULE EX_XBOG ------------------------------
EXTENDS RuleTables

XBOG == [
  name |-> "XBOG",
  tz |-> "America/New_York",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(9, 31)>>>>,
  closes |-> <<<<NegInf, HM(16, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Day
    [m |-> 1, d |-> 6, off |-> <<>>, obs |-> "monday_on_or_after", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Epiphany
    [m |-> 3, d |-> 19, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* St. Joseph's Day (next Monday)
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -3>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Maundy Thursday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Labour Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 43>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Monday After Ascension Day
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 64>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Monday After Corpus Christi
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 71>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Monday After Sacred Heart
    [m |-> 6, d |-> 29, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* St. Peter and St. Paul Day
    [m |-> 7, d |-> 20, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Colombian Independence Day
    [m |-> 8, d |-> 7, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Battle of Boyaca
    [m |-> 8, d |-> 15, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Assumption Day (next Monday)
    [m |-> 10, d |-> 12, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Dia de la Raza
    [m |-> 11, d |-> 1, off |-> <<<<"nth", MON, 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* All Saint's Day (next Monday)
    [m |-> 11, d |-> 11, off |-> <<>>, obs |-> "monday_on_or_after", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Cartagena Independence Day
    [m |-> 12, d |-> 8, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Immaculate Conception
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Christmas
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "previous_friday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* New Year's Eve
  >>,
  adhoc |-> {},
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
