------------------------------ MODULE EX_XTAE ------------------------------
EXTENDS RuleTables

XTAE == [
  name |-> "XTAE",
  tz |-> "Asia/Tel_Aviv",
  mask |-> {MON, TUE, WED, THU, SUN},
  opens |-> <<<<NegInf, HM(10, 0)>>>>,
  closes |-> <<<<NegInf, HM(17, 15)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<<<"purim">>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Purim
    [m |-> 1, d |-> 1, off |-> <<<<"passover">>, <<"days", -1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Passover Eve
    [m |-> 1, d |-> 1, off |-> <<<<"passover">>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Passover
    [m |-> 1, d |-> 1, off |-> <<<<"passover">>, <<"days", 5>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Passover II Eve
    [m |-> 1, d |-> 1, off |-> <<<<"passover">>, <<"days", 6>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Passover II
    [m |-> 1, d |-> 1, off |-> <<<<"memorial">>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Memorial Day
    [m |-> 1, d |-> 1, off |-> <<<<"memorial">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Independence Day
    [m |-> 1, d |-> 1, off |-> <<<<"pentecost">>, <<"days", -1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Pentecost Eve
    [m |-> 1, d |-> 1, off |-> <<<<"pentecost">>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Pentecost
    [m |-> 1, d |-> 1, off |-> <<<<"fastday">>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Tisha B'Av
    [m |-> 1, d |-> 1, off |-> <<<<"roshhashanah">>, <<"days", -1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year's Eve
    [m |-> 1, d |-> 1, off |-> <<<<"roshhashanah">>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year
    [m |-> 1, d |-> 1, off |-> <<<<"roshhashanah">>, <<"days", 1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* New Year II
    [m |-> 1, d |-> 1, off |-> <<<<"yomkippur">>, <<"days", -1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Yom Kippur Eve
    [m |-> 1, d |-> 1, off |-> <<<<"yomkippur">>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Yom Kippur
    [m |-> 1, d |-> 1, off |-> <<<<"sukkoth">>, <<"days", -1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Sukkoth Eve
    [m |-> 1, d |-> 1, off |-> <<<<"sukkoth">>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Sukkoth
    [m |-> 1, d |-> 1, off |-> <<<<"simchattorah">>, <<"days", -1>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Simchat Torah Eve
    [m |-> 1, d |-> 1, off |-> <<<<"simchattorah">>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Simchat Torah
  >>,
  adhoc |-> Days({
    20190409, 20190917,
    20200302,
    20210323}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
