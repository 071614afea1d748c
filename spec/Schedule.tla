------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* How a calendar definition and a date range determine the schedule.      *)
(*                                                                         *)
(* A definition is a record                                                *)
(*   tz             time zone name (see Zones)                             *)
(*   mask           weekdays of the trading week                           *)
(*   rules, adhoc   recurring holidays (sequence of rules), one-off ones   *)
(*   opens, closes, bstarts, bends                                         *)
(*                  time regimes: sequence of <<first day, seconds>>       *)
(*                  (the first with first day NegInf), <<>> for no breaks  *)
(*   oo, co         day offsets of opens and closes                        *)
(*   sopens, scloses     recurring specials: sequence of <<seconds, rules>>*)
(*   sopensA, sclosesA   one-off specials: sequence of <<seconds, days>>   *)
(*                                                                         *)
(* Instants are <<minute, second>> with minute counted from 1970-01-01 UTC.*)
(***************************************************************************)
EXTENDS HolidayRules, Zones

MinPerDay == 1440

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == a = b \/ Lt(a, b)

-----------------------------------------------------------------------------
(* Sessions.                                                               *)

Holidays(def, lo, hi) == RulesDays(def.rules, lo, hi) \cup {x \in def.adhoc : x >= lo /\ x <= hi}

SessionDays(def, lo, hi) ==
    LET H == Holidays(def, lo, hi)
    IN  {x \in lo .. hi : Weekday(x) \in def.mask /\ x \notin H}

-----------------------------------------------------------------------------
(* Time zones: a slice of the zone's transition table around some years.   *)

ZoneSlice(tz, lo, hi) ==
    LET Z == ZoneTable(tz)
        a == (lo - 400) * MinPerDay
        b == (hi + 400) * MinPerDay
        before == {i \in DOMAIN Z.trans : Z.trans[i][1] <= a}
    IN  [base  |-> IF before = {} THEN Z.base ELSE Z.trans[MaxOf(before)][2],
         trans |-> SelectSeq(Z.trans, LAMBDA t : t[1] > a /\ t[1] <= b)]

RECURSIVE OffsetFrom(_, _, _, _)
OffsetFrom(trans, i, cur, u) ==
    IF i > Len(trans) \/ trans[i][1] > u THEN cur
    ELSE OffsetFrom(trans, i + 1, trans[i][2], u)
OffsetAt(Z, u) == OffsetFrom(Z.trans, 1, Z.base, u)

(* UTC minutes whose local wall clock reads L: one, except in the hour a   *)
(* clock change skips (none) or repeats (two).                             *)
ToUtc(Z, L) ==
    LET o1 == OffsetAt(Z, L - 1500)
        o2 == OffsetAt(Z, L + 1500)
    IN  {u \in {L - o1, L - o2} : u + OffsetAt(Z, u) = L}

(* Local time of day t (seconds) on day x, as an instant.                  *)
At(Z, x, t) == LET U == ToUtc(Z, x * MinPerDay + t \div 60)
               IN  <<CHOOSE u \in U : TRUE, t % 60>>
WellDefined(Z, x, t) == Cardinality(ToUtc(Z, x * MinPerDay + t \div 60)) = 1

-----------------------------------------------------------------------------
(* Regular and special times.                                              *)

Regime(regs, x) ==
    LET i == CHOOSE i \in DOMAIN regs : /\ regs[i][1] <= x
                                        /\ i = Len(regs) \/ regs[i + 1][1] > x
    IN  regs[i][2]

(* Special times in force in lo..hi: set of <<day, seconds>>.              *)
Specials(recurring, oneoff, lo, hi) ==
         UNION {{<<x, recurring[i][1]>> : x \in RulesDays(recurring[i][2], lo, hi)} : i \in DOMAIN recurring}
    \cup UNION {{<<x, oneoff[i][1]>> : x \in {z \in oneoff[i][2] : z >= lo /\ z <= hi}} : i \in DOMAIN oneoff}

SpecialTime(sp, x) == (CHOOSE s \in sp : s[1] = x)[2]
SpecialDays(sp) == {s[1] : s \in sp}

NoTime == <<NegInf, 0>>

(* The four times of session x, given the specials (sets of <<day, secs>>). *)
OpenTime(def, Z, so, x) ==
    IF x \in SpecialDays(so) THEN At(Z, x, SpecialTime(so, x))
    ELSE At(Z, x + def.oo, Regime(def.opens, x))
CloseTime(def, Z, sc, x) ==
    IF x \in SpecialDays(sc) THEN At(Z, x, SpecialTime(sc, x))
    ELSE At(Z, x + def.co, Regime(def.closes, x))
BreakTime(def, Z, sc, x, regs) ==
    IF regs = <<>> \/ x \in SpecialDays(sc) THEN NoTime
    ELSE At(Z, x, Regime(regs, x))

Row(def, Z, so, sc, x) ==
    <<OpenTime(def, Z, so, x), BreakTime(def, Z, sc, x, def.bstarts),
      BreakTime(def, Z, sc, x, def.bends), CloseTime(def, Z, sc, x)>>

(* Definitions that leave a session without a time, or with half a break,  *)
(* cannot be built (C24).                                                  *)
HasTime(regs, x) == \E i \in DOMAIN regs : regs[i][1] <= x
Undefined(def, sc, x) ==
    \/ ~HasTime(def.opens, x) \/ ~HasTime(def.closes, x)
    \/ (def.bstarts # <<>> /\ ~HasTime(def.bstarts, x))
    \/ (def.bends # <<>> /\ ~HasTime(def.bends, x))
    \/ (x \notin SpecialDays(sc) /\ (def.bstarts = <<>>) # (def.bends = <<>>))
Refused(def, sc, S) == S = {} \/ \E x \in S : Undefined(def, sc, x)

(* Known deviation of the implementation (finding F2): a special time is   *)
(* ignored when its instant is after midnight UTC of the range's last day. *)
EdgeDropped(Z, s, end) == Lt(<<end * MinPerDay, 0>>, At(Z, s[1], s[2]))

-----------------------------------------------------------------------------
(* The shape every schedule should have (C18).                             *)
RowOrdered(r) ==
    /\ Lt(r[1], r[4])
    /\ r[2] # NoTime => Lt(r[1], r[2]) /\ Lt(r[2], r[3]) /\ Lt(r[3], r[4])
    /\ (r[2] = NoTime) = (r[3] = NoTime)
=============================================================================
