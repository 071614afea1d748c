------------------------------ MODULE RuleTrace ------------------------------
(* Dates listed for reusable holidays over a range (C22, C30), and named    *)
(* lists of one-off closings.  Events:                                      *)
(*   rules, lo, hi, days   the dates a holiday calendar with these rules    *)
(*                         lists for lo..hi                                 *)
(*   closing, days         the days of a named list (rules empty)           *)
(*   odd                   what could not be encoded, or ""                 *)
EXTENDS Blocks, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[j] : j \in DOMAIN s}

Expected(ev) ==
    IF ev.closing # "" THEN Closings[ev.closing]
    ELSE UNION {LET r == BlockRule(ev.rules[j])
                IN  RuleDates(r, ev.lo, ev.hi, YearOf(ev.lo) - LookBack(r), YearOf(ev.hi) + 1) : j \in DOMAIN ev.rules}

VARIABLES i, bad
vars == <<i, bad>>
Init == i = 1 /\ bad = <<>>
Next == /\ i <= Len(Trace)
        /\ LET ev == Trace[i]
               E == Expected(ev)
               A == ToSet(ev.days)
           IN  bad' = IF ev.odd # "" THEN Append(bad, [i |-> i, why |-> ev.odd, missing |-> {}, extra |-> {}])
                      ELSE IF A = E THEN bad
                      ELSE Append(bad, [i |-> i, why |-> "dates", missing |-> E \ A, extra |-> A \ E])
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>] ELSE TLCGet(1))
=============================================================================
