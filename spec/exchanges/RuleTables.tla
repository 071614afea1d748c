----------------------------- MODULE RuleTables -----------------------------
(* Notation shared by the exchange tables.                                  *)
EXTENDS HolidayRules
YMD(n) == DayNum(n \div 10000, (n \div 100) % 100, n % 100)
Days(S) == {YMD(n) : n \in S}
HM(h, m) == h * 3600 + m * 60
=============================================================================
