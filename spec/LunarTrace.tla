----------------------------- MODULE LunarTrace ------------------------------
(* The library's tables of Chinese festivals and Japanese equinoxes (C29):  *)
(* one day for each year covered, the right one.  Event: name, days, odd.               *)
EXTENDS Lunar, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Years == 1959 .. 2049
Names == {Trace[j].name : j \in DOMAIN Trace}
(* each festival is worked out once *)
Right == TLCEval([n \in Names |-> TLCEval([y \in Years |-> Festival(n, y)])])
InYear(ev, y) == {j \in DOMAIN ev.days : YearOf(ev.days[j]) = y}

(* what is wrong with year y of a table, or "" *)
Wrong(ev, y) ==
    LET js == InYear(ev, y) IN
    IF js = {} THEN IF y \in Covers(ev.name) THEN "no date" ELSE ""
    ELSE IF \E j \in js : ev.days[j] # Right[ev.name][y]
         THEN "not on " \o ToString(Civil(Right[ev.name][y]))
    ELSE IF Cardinality(js) > 1 THEN "several dates" ELSE ""

VARIABLES i, bad
vars == <<i, bad>>
Init == i = 1 /\ bad = <<>>
First(ev) == LET ys == {y \in Years : Wrong(ev, y) # ""}
             IN  IF ys = {} THEN 0 ELSE CHOOSE y \in ys : \A z \in ys : y <= z
Next == /\ i <= Len(Trace)
        /\ LET ev == Trace[i]
               y == First(ev)
           IN  bad' = IF ev.odd # "" THEN Append(bad, [i |-> i, y |-> 0, why |-> ev.odd])
                      ELSE IF y = 0 THEN bad ELSE Append(bad, [i |-> i, y |-> y, why |-> Wrong(ev, y)])
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>] ELSE TLCGet(1))
=============================================================================
