------------------------------- MODULE MCExec -------------------------------
(* C19: on the US futures schedule the execution window given by the shifts *)
(* of Queries (open + 750 minutes, close - 60 minutes) is 6:31 to 17:00      *)
(* local time on every session from 1970 to 2100.                            *)
EXTENDS Schedule, Exchanges
VARIABLE y
Def == Exchange("us_futures")
Clock(Z, u) == (u + OffsetAt(Z, u)) % MinPerDay
DateAt(Z, u) == (u + OffsetAt(Z, u)) \div MinPerDay
Good(yr) ==
    LET lo == DayNum(yr, 1, 1)  hi == DayNum(yr, 12, 31)
        Z == ZoneSlice(Def.tz, lo, hi)
    IN  \A x \in SessionDays(Def, lo, hi) :
          LET r == Row(Def, Z, {}, {}, x)
              a == r[1][1] + 750
              b == r[4][1] - 60
          IN  /\ Clock(Z, a) = 6 * 60 + 31 /\ DateAt(Z, a) = x
              /\ Clock(Z, b) = 17 * 60 /\ DateAt(Z, b) = x
Init == y = 1970
Next == y < 2100 /\ y' = y + 1
Spec == Init /\ [][Next]_y
Inv == Good(y)
=============================================================================
