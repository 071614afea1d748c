---------------------------- MODULE DefaultTrace -----------------------------
(***************************************************************************)
(* Ranges left out when a calendar is built (C23).  Without a start a      *)
(* calendar begins on 1990-01-01, without an end it reaches 365 days past  *)
(* the day the library was loaded; an end given with a time of day means   *)
(* that day.                                                               *)
(*                                                                         *)
(* Each event is one calendar built with one or both ends left out:        *)
(*   x             name of a shipped calendar, "" for another              *)
(*   start, end    days given, NegInf when left out                        *)
(*   loaded        days between which the library was loaded               *)
(*   days          its sessions near the two ends; first and last of all   *)
(*   wide          sessions, in the same windows, of calendars of the same *)
(*                 kind built over explicit ranges containing them         *)
(*   k             "ok" or "err"                                           *)
(***************************************************************************)
EXTENDS DateMath, Sequences, FiniteSets, TLC, Json, IOUtils

NegInf == -1000000
(* Two shipped calendars begin later.                                      *)
Start(x) == DayNum(IF x \in {"XTKS", "us_futures"} THEN 2000 ELSE 1990, 1, 1)
Reach == 365

ToSet(s) == {s[i] : i \in DOMAIN s}
Starts(ev) == {IF ev.start = NegInf THEN Start(ev.x) ELSE ev.start}
Ends(ev) == IF ev.end = NegInf THEN {t + Reach : t \in ev.loaded[1] .. ev.loaded[2]} ELSE {ev.end}

(* Sessions of a calendar from a to b, as far as they are in the windows.  *)
Expected(ev, a, b) == {x \in ToSet(ev.wide) : x >= a /\ x <= b}
Fits(ev, a, b) ==
    LET E == Expected(ev, a, b) IN
    IF E = {} THEN ev.k = "err"
    ELSE ev.k = "ok" /\ ToSet(ev.days) = E /\ ev.first = MinOf(E) /\ ev.last = MaxOf(E)

Say(ev) == LET a == CHOOSE a \in Starts(ev) : TRUE
               b == CHOOSE b \in Ends(ev) : TRUE
               E == Expected(ev, a, b)
           IN  [from |-> a, to |-> b, first |-> IF E = {} THEN NegInf ELSE MinOf(E),
                last |-> IF E = {} THEN NegInf ELSE MaxOf(E)]
Judge(ev) == IF \E a \in Starts(ev), b \in Ends(ev) : Fits(ev, a, b) THEN <<>> ELSE <<Say(ev)>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Init == i = 1 /\ bad = <<>>
Next == /\ i <= Len(Trace)
        /\ LET j == Judge(Trace[i]) IN
           bad' = IF j = <<>> THEN bad ELSE Append(bad, [i |-> i, say |-> j])
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>] ELSE TLCGet(1))
=============================================================================
