------------------------------- MODULE Bounds --------------------------------
(***************************************************************************)
(* Calendars whose holidays come from tables: the years the tables cover   *)
(* limit the ranges the calendar can be built for (C17).                   *)
(***************************************************************************)
EXTENDS Schedule, Exchanges, Json, IOUtils, TLC

(* Covered years of the shipped ones: the years of the first and last      *)
(* entry of the table, for Hong Kong the years all its lunisolar tables    *)
(* share.                                                                  *)
Covered(x) == CASE x = "XKRX" -> <<1986, 2021>>
                [] x = "XBOM" -> <<1997, 2020>>
                [] x = "XSES" -> <<1986, 2020>>
                [] x = "XSHG" -> <<1999, 2025>>
                [] x = "XHKG" -> <<1960, 2049>>
CoveredBy(table) == <<YearOf(MinOf(table)), YearOf(MaxOf(table))>>

(* Start and end left out mean the covered years.                          *)
Default == -1000000
From(lo, years) == IF lo = Default THEN DayNum(years[1], 1, 1) ELSE lo
Until(hi, years) == IF hi = Default THEN DayNum(years[2], 12, 31) ELSE hi

Early(S, years) == \E x \in S : YearOf(x) < years[1]
Late(S, years)  == \E x \in S : YearOf(x) > years[2]

(* Outcome of building over sessions S: "ok", or an error naming one of    *)
(* the violated limits.                                                    *)
Limits(S, years) == (IF Early(S, years) THEN {years[1]} ELSE {})
               \cup (IF Late(S, years) THEN {years[2]} ELSE {})

-----------------------------------------------------------------------------
(* Recorded constructions: x or (def); lo, hi; k; years mentioned by the   *)
(* error; first and last session.                                          *)
ToSet(s) == {s[i] : i \in DOMAIN s}
NormRule(r) == [m |-> r.m, d |-> r.d, off |-> r.off, obs |-> r.obs, dow |-> ToSet(r.dow),
                from |-> r.from, to |-> r.to, year |-> r.year]
DefOf(ev) == IF ev.x # "" THEN Exchange(ev.x)
             ELSE [mask |-> ToSet(ev.mask), rules |-> [i \in DOMAIN ev.rules |-> NormRule(ev.rules[i])],
                   adhoc |-> ToSet(ev.table)]
YearsOf(ev) == IF ev.x # "" THEN Covered(ev.x) ELSE CoveredBy(ToSet(ev.table))

Trace == ndJsonDeserialize(IOEnv.TRACE)
Say(why, exp) == <<[why |-> why, exp |-> exp]>>

(* Only the sessions outside the covered years and the outermost ones      *)
(* matter: a window of each end is enough for a long range.                *)
Near(def, lo, hi, years) ==
    LET a == DayNum(years[1], 1, 1)
        b == DayNum(years[2], 12, 31)
        W == 40
    IN  SessionDays(def, lo, IF lo + W > hi THEN hi ELSE lo + W)
   \cup SessionDays(def, IF hi - W < lo THEN lo ELSE hi - W, hi)
   \cup (IF lo < a THEN SessionDays(def, lo, IF a - 1 < hi THEN a - 1 ELSE hi) ELSE {})
   \cup (IF hi > b THEN SessionDays(def, IF b + 1 > lo THEN b + 1 ELSE lo, hi) ELSE {})

Judge(ev) ==
    LET def == DefOf(ev)
        years == YearsOf(ev)
        lo == From(ev.lo, years)
        hi == Until(ev.hi, years)
        S == Near(def, lo, hi, years)
        L == Limits(S, years)
    IN  IF S = {} THEN <<>>
        ELSE IF L # {} THEN
            IF ev.k = "ok" THEN Say("accepted", [limits |-> L])
            ELSE IF ToSet(ev.years) \cap L = {} THEN Say("unnamed limit", [limits |-> L])
            ELSE <<>>
        ELSE IF ev.k # "ok" THEN Say("refused", [first |-> MinOf(S), last |-> MaxOf(S)])
        ELSE IF ev.first # MinOf(S) \/ ev.last # MaxOf(S)
             THEN Say("ends", [first |-> MinOf(S), last |-> MaxOf(S)])
        ELSE <<>>

VARIABLES i, bad, refused
vars == <<i, bad, refused>>
Init == i = 1 /\ bad = <<>> /\ refused = 0
Next == /\ i <= Len(Trace)
        /\ LET j == Judge(Trace[i]) IN
           /\ bad' = IF j = <<>> THEN bad ELSE Append(bad, [i |-> i, say |-> j])
           /\ refused' = refused + (IF Trace[i].k = "ok" THEN 0 ELSE 1)
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad', refused |-> refused'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
