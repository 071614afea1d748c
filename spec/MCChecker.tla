----------------------------- MODULE MCChecker ------------------------------
(* Every calendar of sessions and every key within a window of days, every  *)
(* earliest date.                                                           *)
EXTENDS Checker
CONSTANTS Lo, Hi
VARIABLES cal, key, min
vars == <<cal, key, min>>
Init == /\ \E o \in SUBSET (Lo + 1 .. Hi - 1) \ {{}} :
               cal = [first |-> MinDay(o), last |-> MaxDay(o), open |-> o]
        /\ key \in SUBSET (Lo .. Hi) \ {{}}
        /\ min \in {Lo, Lo + 2, Hi - 1}
Next == UNCHANGED vars

(* The report separates agreement from disagreement on every compared day. *)
Exact == \A x \in Weekdays(cal, key, min) :
            /\ (x \in Open(cal, key, min) \cup Closed(cal, key, min)) <=> ((x \in key) <=> (x \in cal.open))
            /\ ~(x \in Open(cal, key, min) /\ x \in Closed(cal, key, min))
(* Nothing outside the calendar, the key's span or the time asked for. *)
Inside == \A x \in Open(cal, key, min) \cup Closed(cal, key, min) :
            /\ min <= x /\ cal.first <= x /\ x <= cal.last
            /\ MinDay(key) <= x /\ x <= MaxDay(key) /\ IsWeekday(x)
(* A key corrected as reported matches. *)
Settles == LET k == Corrected(cal, key, min)
           IN  k # {} => Match(cal, k, min)
(* Asking for a later date only leaves out earlier days. *)
Later == \A m \in min .. Hi :
            /\ Open(cal, key, m) = {x \in Open(cal, key, min) : x >= m}
            /\ Closed(cal, key, m) = {x \in Closed(cal, key, min) : x >= m}
=============================================================================
