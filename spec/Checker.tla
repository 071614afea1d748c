------------------------------ MODULE Checker -------------------------------
(***************************************************************************)
(* C27.  The holiday checker (etc/check_holidays.py) compares a calendar   *)
(* with a key, a list of days claimed to be holidays of it.  Only days     *)
(* from the first to the last day of the key, inside the calendar and not  *)
(* before the earliest date asked for are compared, and of these only      *)
(* weekdays: weekend days are closed for most exchanges and no key lists   *)
(* them.  (The tool shows sessions on weekends too; whether it does is     *)
(* left open.)                                                             *)
(***************************************************************************)
EXTENDS DateMath, FiniteSets

MaxDay(S) == CHOOSE x \in S : \A y \in S : y <= x
MinDay(S) == CHOOSE x \in S : \A y \in S : x <= y
IsWeekday(x) == Weekday(x) \notin {SAT, SUN}

(* cal: [first, last, open]; key: a set of days *)
From(cal, key, min) == MaxDay({cal.first, MinDay(key), min})
Until(cal, key)     == MinDay({cal.last, MaxDay(key)})
Compared(cal, key, min) == From(cal, key, min) .. Until(cal, key)
Weekdays(cal, key, min) == {x \in Compared(cal, key, min) : IsWeekday(x)}

(* in the key, but open *)
Open(cal, key, min)   == {x \in Weekdays(cal, key, min) : x \in key /\ x \in cal.open}
(* not in the key, but closed *)
Closed(cal, key, min) == {x \in Weekdays(cal, key, min) : x \notin key /\ x \notin cal.open}
Match(cal, key, min)  == Open(cal, key, min) = {} /\ Closed(cal, key, min) = {}
WeekendOpen(cal, key, min) == {x \in Compared(cal, key, min) : ~IsWeekday(x) /\ x \in cal.open}

(* a key corrected as the report says *)
Corrected(cal, key, min) == (key \cup Closed(cal, key, min)) \ Open(cal, key, min)
=============================================================================
