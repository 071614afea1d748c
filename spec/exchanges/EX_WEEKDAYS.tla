------------------------------ MODULE EX_WEEKDAYS ------------------------------
EXTENDS RuleTables

WEEKDAYS == [
  name |-> "24/5",
  tz |-> "UTC",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(0, 0)>>>>,
  closes |-> <<<<NegInf, HM(23, 59)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<>>,
  adhoc |-> {},
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
