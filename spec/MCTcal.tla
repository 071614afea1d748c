------------------------------- MODULE MCTcal --------------------------------
(* The grid is right for every month: all months of FirstYear..LastYear,    *)
(* with every third, every weekday and no day open.                         *)
EXTENDS Tcal
CONSTANTS FirstYear, LastYear
VARIABLES y, m
MCInit == y \in FirstYear .. LastYear /\ m \in 1 .. 12 /\ i = 0 /\ bad = <<>>
MCNext == UNCHANGED <<y, m, i, bad>>
MonthDays == {DayNum(y, m, d) : d \in 1 .. MonthLen(y, m)}
AllRight == \A open \in {{}, {x \in MonthDays : x % 3 = 0}, {x \in MonthDays : Weekday(x) < 5}} :
                GridOK(y, m, open)
=============================================================================
