------------------------------ MODULE EX_ALWAYS ------------------------------
EXTENDS RuleTables

ALWAYS == [
  name |-> "24/7",
  tz |-> "UTC",
  mask |-> {MON, TUE, WED, THU, FRI, SAT, SUN},
  opens |-> <<<<NegInf, HM(0, 0)>>>>,
  closes |-> <<<<NegInf, HM(23, 59)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<>>,
  adhoc |-> {},
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
