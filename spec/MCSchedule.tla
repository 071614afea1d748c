----------------------------- MODULE MCSchedule -----------------------------
(***************************************************************************)
(* Theorems about Schedule, for every definition put together from the     *)
(* parts below and every range inside a window of days.  The windows lie   *)
(* across a year end and across clock changes, in zones east and west.     *)
(***************************************************************************)
EXTENDS Schedule

Rule(m, d, off, obs) ==
    [m |-> m, d |-> d, off |-> off, obs |-> obs, dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]

Windows == {
    [tz |-> "America/New_York",    lo |-> DayNum(2010, 12, 28), hi |-> DayNum(2011, 1, 4)],
    [tz |-> "America/New_York",    lo |-> DayNum(2019, 3, 7),   hi |-> DayNum(2019, 3, 12)],
    [tz |-> "Pacific/Auckland",    lo |-> DayNum(2019, 4, 4),   hi |-> DayNum(2019, 4, 9)],
    [tz |-> "Australia/Lord_Howe", lo |-> DayNum(2019, 10, 3),  hi |-> DayNum(2019, 10, 8)],
    [tz |-> "Europe/London",       lo |-> DayNum(2021, 12, 29), hi |-> DayNum(2022, 1, 4)]}

Masks == {0 .. 4, 0 .. 6, {SUN, MON, TUE, WED, THU}}
RuleLists == {<<>>,
              <<Rule(1, 1, <<>>, "nearest_workday"), Rule(12, 31, <<>>, "next_monday")>>,
              <<Rule(3, 1, <<<<"nth", SUN, 2>>, <<"days", 1>>>>, ""), Rule(1, 1, <<>>, "previous_workday")>>,
              <<Rule(12, 28, <<<<"days", 6>>>>, ""), Rule(10, 7, <<>>, ""), Rule(4, 5, <<>>, "next_monday_or_tuesday")>>}
H(h, m) == (h * 60 + m) * 60

CONSTANT Full        \* TRUE: every combination of the parts

VARIABLES w, def, stage
vars == <<w, def, stage>>

Def(win, mask, rules, closed, oo, split, brk, sc, so) ==
    LET mid == (win.lo + win.hi) \div 2
    IN [tz |-> win.tz, mask |-> mask, rules |-> rules,
        adhoc |-> IF closed THEN {win.lo, mid + 1} ELSE {},
        opens |-> IF oo = -1 THEN <<<<NegInf, H(18, 1)>>>>
                  ELSE IF split THEN <<<<NegInf, H(9, 31)>>, <<mid, H(9, 1)>>>> ELSE <<<<NegInf, H(9, 31)>>>>,
        closes |-> IF split THEN <<<<NegInf, H(16, 0)>>, <<mid, H(17, 0) + 30>>>> ELSE <<<<NegInf, H(16, 0)>>>>,
        bstarts |-> IF brk THEN <<<<NegInf, H(11, 30)>>>> ELSE <<>>,
        bends |-> IF brk THEN <<<<NegInf, H(12, 30)>>>> ELSE <<>>,
        oo |-> oo, co |-> 0,
        sopens |-> <<>>,
        scloses |-> IF sc THEN <<<<H(13, 0), <<Rule(12, 30, <<>>, ""), Rule(3, 8, <<>>, "")>>>>>> ELSE <<>>,
        sopensA |-> IF so THEN <<<<H(10, 15), {mid}>>>> ELSE <<>>,
        sclosesA |-> IF sc THEN <<<<H(13, 30), {win.lo + 4, win.hi}>>>> ELSE <<>>]

(* <<closed, split, breaks, special closes, special open>>                 *)
Parts == IF Full THEN BOOLEAN \X BOOLEAN \X BOOLEAN \X BOOLEAN \X BOOLEAN
         ELSE {<<FALSE, FALSE, FALSE, FALSE, FALSE>>, <<TRUE, TRUE, TRUE, TRUE, TRUE>>,
               <<FALSE, TRUE, TRUE, TRUE, FALSE>>, <<TRUE, FALSE, TRUE, FALSE, TRUE>>}

Init == /\ w \in Windows
        /\ \E mask \in Masks : def = Def(w, mask, <<>>, FALSE, 0, FALSE, FALSE, FALSE, FALSE)
        /\ stage = 0
Next == /\ stage = 0
        /\ stage' = 1
        /\ UNCHANGED w
        /\ \E rules \in RuleLists, oo \in {0, -1}, p \in Parts :
              def' = Def(w, def.mask, rules, p[1], oo, p[2], p[3], p[4], p[5])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Zn(lo, hi) == ZoneSlice(def.tz, lo, hi)
SO(lo, hi) == Specials(def.sopens, def.sopensA, lo, hi)
SC(lo, hi) == Specials(def.scloses, def.sclosesA, lo, hi)
Days == w.lo .. w.hi
Ranges == {r \in Days \X Days : r[1] <= r[2]}

All == SessionDays(def, w.lo, w.hi)
RowAt(lo, hi, x) == Row(def, Zn(lo, hi), SO(lo, hi), SC(lo, hi), x)

(* C04: what a day looks like does not depend on the range it is seen in.  *)
RangeIndependent == LET whole == [x \in All |-> RowAt(w.lo, w.hi, x)] IN
    \A r \in Ranges :
      LET D == SessionDays(def, r[1], r[2])
          Z == Zn(r[1], r[2])
          so == SO(r[1], r[2])
          sc == SC(r[1], r[2])
      IN  /\ D = All \cap (r[1] .. r[2])
          /\ \A x \in D : Row(def, Z, so, sc, x) = whole[x]
          /\ SpecialDays(so) = SpecialDays(SO(w.lo, w.hi)) \cap (r[1] .. r[2])
          /\ SpecialDays(sc) = SpecialDays(SC(w.lo, w.hi)) \cap (r[1] .. r[2])

(* C01: one session per day, in the week, not on a holiday.                *)
Sound == \A x \in Days : (x \in All) = (Weekday(x) \in def.mask
                                        /\ x \notin def.adhoc
                                        /\ x \notin RulesDays(def.rules, w.lo - 800, w.hi + 800))

(* C02: read on the local clock, an instant is the time of the regime.     *)
Local(Z, t) == t[1] + OffsetAt(Z, t[1])
Midnight(x) == x * MinPerDay
WallClock == LET Z == Zn(w.lo, w.hi) IN \A x \in All :
    LET r == RowAt(w.lo, w.hi, x)
        o == Regime(def.opens, x)
        c == Regime(def.closes, x)
    IN  /\ x \notin SpecialDays(SO(w.lo, w.hi)) =>
              Local(Z, r[1]) = Midnight(x + def.oo) + o \div 60 /\ r[1][2] = o % 60
        /\ x \notin SpecialDays(SC(w.lo, w.hi)) =>
              Local(Z, r[4]) = Midnight(x) + c \div 60 /\ r[4][2] = c % 60
        /\ r[2] # NoTime => Local(Z, r[2]) = Midnight(x) + 690

(* The zone conversion is the inverse of the local clock.                  *)
ZoneInverse == LET Z == Zn(w.lo, w.hi) IN \A q \in Midnight(w.lo) \div 15 .. Midnight(w.hi) \div 15 :
    LET u == q * 15 IN /\ u \in ToUtc(Z, u + OffsetAt(Z, u))
                       /\ Cardinality(ToUtc(Z, u)) \in {0, 1, 2}
                       /\ \A v \in ToUtc(Z, u) : v + OffsetAt(Z, v) = u

(* C03: specials change their own session and nothing else.                *)
Plain == [def EXCEPT !.scloses = <<>>, !.sclosesA = <<>>, !.sopensA = <<>>]
SpecialsLocal ==
    LET Z == Zn(w.lo, w.hi)
        so == SO(w.lo, w.hi)
        sc == SC(w.lo, w.hi)
    IN  \A x \in All :
          LET r == Row(def, Z, so, sc, x)
              p == Row(Plain, Z, {}, {}, x)
          IN  /\ x \notin SpecialDays(so) => r[1] = p[1]
              /\ x \in SpecialDays(so) => r[1] = At(Z, x, H(10, 15))
              /\ x \notin SpecialDays(sc) => r[2] = p[2] /\ r[3] = p[3] /\ r[4] = p[4]
              /\ x \in SpecialDays(sc) => r[2] = NoTime /\ r[3] = NoTime /\ Lt(r[4], p[4])

(* C18: sessions of these definitions are ordered and disjoint.            *)
Shape == \A x \in All :
    LET r == RowAt(w.lo, w.hi, x) IN
    /\ RowOrdered(r)
    /\ \A z \in All : z > x => Lt(r[4], RowAt(w.lo, w.hi, z)[1])

(* F2 can only concern the last two days of a range.                       *)
EdgeIsAtTheEnd == \A e \in Days : \A s \in SO(w.lo, e) \cup SC(w.lo, e) :
    EdgeDropped(Zn(w.lo, e), s, e) => s[1] >= e - 1
=============================================================================
