---------------------------- MODULE ScheduleTrace ----------------------------
(***************************************************************************)
(* Checks schedules recorded from the implementation against Schedule.     *)
(*                                                                         *)
(* Each event is one calendar built (or one year of a shipped calendar):   *)
(*   x            name of a shipped exchange, or "" with the definition    *)
(*                in def (see Schedule; sets given as sequences)           *)
(*   start, end   range the calendar was built over                        *)
(*   lo, hi       days this event describes                                *)
(*   k            "ok", or "err" when the constructor refused              *)
(*   irr          days departing from Monday-Friday: weekdays without a    *)
(*                session and weekend days with one                        *)
(*   segs         maximal runs <<from, to, open, bstart, bend, close>> of  *)
(*                sessions whose times are the same relative to the label  *)
(*   base         same for the definition stripped of its specials (or <<>>)*)
(*   late, early  listed late opens and early closes                       *)
(*   first, last  first/last session (-1 when not recorded)                *)
(*   probes       <<kind, day, n, result>> of membership/offset queries    *)
(*                (n of membership: nanoseconds past midnight, at most 1)  *)
(*   odd          a description of anything that could not be encoded      *)
(***************************************************************************)
EXTENDS Schedule, Blocks, Exchanges, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
Clauses == IF "CLAUSES" \in DOMAIN IOEnv THEN IOEnv.CLAUSES ELSE "all"

ToSet(s) == {s[i] : i \in DOMAIN s}

NormRule(r) == [m |-> r.m, d |-> r.d, off |-> r.off, obs |-> r.obs, dow |-> ToSet(r.dow),
                from |-> r.from, to |-> r.to, year |-> r.year]
(* A rule with a name is one of the reusable holidays.                     *)
NormRules(rs) == [i \in DOMAIN rs |-> IF "name" \in DOMAIN rs[i] THEN BlockRule(rs[i]) ELSE NormRule(rs[i])]
(* One-off days moved off Sundays before use.                              *)
Moved(d) == IF "moved" \in DOMAIN d THEN {SundayToMonday(x) : x \in ToSet(d.moved)} ELSE {}
(* Named lists of closings.                                                *)
Closed(d) == IF "closings" \in DOMAIN d THEN UNION {Closings[n] : n \in ToSet(d.closings)} ELSE {}
NormDef(d) ==
    [tz |-> d.tz, mask |-> ToSet(d.mask), rules |-> NormRules(d.rules), adhoc |-> ToSet(d.adhoc) \cup Moved(d) \cup Closed(d),
     opens |-> d.opens, closes |-> d.closes, bstarts |-> d.bstarts, bends |-> d.bends,
     oo |-> d.oo, co |-> d.co,
     sopens |-> [i \in DOMAIN d.sopens |-> <<d.sopens[i][1], NormRules(d.sopens[i][2])>>],
     scloses |-> [i \in DOMAIN d.scloses |-> <<d.scloses[i][1], NormRules(d.scloses[i][2])>>],
     sopensA |-> [i \in DOMAIN d.sopensA |-> <<d.sopensA[i][1], ToSet(d.sopensA[i][2])>>],
     sclosesA |-> [i \in DOMAIN d.sclosesA |-> <<d.sclosesA[i][1], ToSet(d.sclosesA[i][2])>>]]

DefOf(ev) == IF ev.x = "" THEN NormDef(ev.def) ELSE Exchange(ev.x)

IsWeekend(x) == Weekday(x) \in {SAT, SUN}
Recorded(ev) == LET I == ToSet(ev.irr) IN {x \in ev.lo .. ev.hi : IsWeekend(x) = (x \in I)}

(* Instants relative to midnight UTC of the label, as in segs.             *)
Rel(t, x) == IF t = NoTime THEN t ELSE <<t[1] - x * MinPerDay, t[2]>>
RelRow(row, x) == [i \in 1 .. 4 |-> Rel(row[i], x)]
SegRow(s) == <<s[3], s[4], s[5], s[6]>>

Say(why, exp) == <<[why |-> why, exp |-> exp]>>
FirstOr0(S) == IF S = {} THEN NegInf ELSE MinOf(S)

-----------------------------------------------------------------------------
Sessions(ev, def) ==
    LET E == SessionDays(def, ev.lo, ev.hi)
        A == Recorded(ev)
    IN  IF A = E THEN <<>>
        ELSE Say("sessions", [missing |-> E \ A, extra |-> A \ E])

Ends(ev, def) ==
    LET A == Recorded(ev) IN
    IF ev.first = -1 \/ A = {} \/ (ev.first = MinOf(A) /\ ev.last = MaxOf(A)) THEN <<>>
    ELSE Say("ends", [first |-> MinOf(A), last |-> MaxOf(A)])

RECURSIVE Nth(_, _, _)
Nth(S, x, n) == IF n = 0 THEN x
                ELSE IF n > 0 THEN Nth(S, MinOf({y \in S : y > x}), n - 1)
                ELSE Nth(S, MaxOf({y \in S : y < x}), n + 1)

ProbeBad(ev, def, p) ==
    CASE p[1] = "member" -> (p[4] = 1) # (p[3] = 0 /\ p[2] >= ev.start /\ p[2] <= ev.end /\ p[2] \in SessionDays(def, p[2], p[2]))
      [] p[1] = "offset" ->
            \* n business days away; with n = 0 roll forward to a business day
            LET S == SessionDays(def, p[2] - 60, p[2] + 60)
            IN  p[4] # IF p[3] = 0 THEN MinOf({y \in S : y >= p[2]})
                       \* stepping back from a non-business day lands on the previous one
                       ELSE Nth(S, p[2], p[3])
      [] p[1] = "first" -> p[2] # MinOf(Recorded(ev))
      [] p[1] = "last" -> p[2] # MaxOf(Recorded(ev))
      [] p[1] = "on" -> (p[4] = 1) # (p[2] \in SessionDays(def, p[2], p[2]))
Probes(ev, def) ==
    LET B == {i \in DOMAIN ev.probes : ProbeBad(ev, def, ev.probes[i])}
    IN  IF B = {} THEN <<>> ELSE Say("probe", ev.probes[MinOf(B)])

-----------------------------------------------------------------------------
(* Times.  Listed special days at the very edge of the range may have been *)
(* ignored by the implementation (finding F2); everything else may not.    *)

Spec(ev, def, which) ==
    IF which = "open" THEN Specials(def.sopens, def.sopensA, ev.lo, ev.hi)
                      ELSE Specials(def.scloses, def.sclosesA, ev.lo, ev.hi)
Edge(ev, Z, sp) == {s \in sp : EdgeDropped(Z, s, ev.end)}
Effective(ev, Z, sp, listed) == sp \ {s \in Edge(ev, Z, sp) : s[1] \notin listed}

RowsBad(ev, def, Z, so, sc, days) ==
    UNION {LET g == ev.segs[i] IN
           {x \in days : x >= g[1] /\ x <= g[2] /\ RelRow(Row(def, Z, so, sc, x), x) # SegRow(g)}
           : i \in DOMAIN ev.segs}
Covered(ev, x) == \E i \in DOMAIN ev.segs : ev.segs[i][1] <= x /\ x <= ev.segs[i][2]

Rows(ev, def, Z, so, sc, days, why) ==
    LET B == RowsBad(ev, def, Z, so, sc, days) \cup {x \in days : ~Covered(ev, x)}
    IN  IF B = {} THEN <<>>
        ELSE LET x == MinOf(B) IN Say(why, [day |-> x, n |-> Cardinality(B), row |-> RelRow(Row(def, Z, so, sc, x), x)])

Listing(ev, Z, sp, listed, days, why) ==
    LET must == {s[1] : s \in sp \ Edge(ev, Z, sp)} \cap days
        may  == {s[1] : s \in sp}
        got  == listed \cap days
    IN  IF must \subseteq got /\ got \subseteq may THEN <<>>
        ELSE Say(why, [missing |-> must \ got, extra |-> got \ may])

NullSegRow == <<>>
BaseRow(ev, x) == IF \E i \in DOMAIN ev.base : ev.base[i][1] <= x /\ x <= ev.base[i][2]
                  THEN SegRow(ev.base[CHOOSE i \in DOMAIN ev.base : ev.base[i][1] <= x /\ x <= ev.base[i][2]])
                  ELSE NullSegRow
SegRowOf(ev, x) == IF Covered(ev, x)
                   THEN SegRow(ev.segs[CHOOSE i \in DOMAIN ev.segs : ev.segs[i][1] <= x /\ x <= ev.segs[i][2]])
                   ELSE NullSegRow

(* Sessions without specials keep exactly the times of the plain calendar, *)
(* and a session with only one kind keeps the rest.                        *)
Untouched(ev, so, sc, days) ==
    LET SO == SpecialDays(so)
        SC == SpecialDays(sc)
        B == {x \in days :
                LET r == SegRowOf(ev, x)  b == BaseRow(ev, x) IN
                \/ r = NullSegRow \/ b = NullSegRow
                \/ (x \notin SO /\ r[1] # b[1])
                \/ (x \notin SC /\ <<r[2], r[3], r[4]>> # <<b[2], b[3], b[4]>>)}
    IN  IF ev.base = <<>> \/ B = {} THEN <<>>
        ELSE LET x == MinOf(B) IN Say("untouched", [day |-> x, n |-> Cardinality(B), row |-> BaseRow(ev, x)])

(* Special sessions: their own time, and no break under a special close.   *)
SpecialRows(ev, Z, so, sc, days) ==
    LET BO == {s \in so : s[1] \in days /\ LET r == SegRowOf(ev, s[1]) IN
                             r = NullSegRow \/ r[1] # Rel(At(Z, s[1], s[2]), s[1])}
        BC == {s \in sc : s[1] \in days /\ LET r == SegRowOf(ev, s[1]) IN
                             r = NullSegRow \/ r[4] # Rel(At(Z, s[1], s[2]), s[1]) \/ r[2] # NoTime \/ r[3] # NoTime}
        B == BO \cup BC
    IN  IF B = {} THEN <<>>
        ELSE LET s == CHOOSE s \in B : TRUE
             IN  Say("special", [day |-> s[1], at |-> Rel(At(Z, s[1], s[2]), s[1])])

-----------------------------------------------------------------------------
(* C18: shape of the recorded schedule itself.                             *)
Shape(ev, def, Z, days) ==
    LET rowOf == [x \in days |-> SegRowOf(ev, x)]
        bad1 == {x \in days : rowOf[x] = NullSegRow \/ ~RowOrdered(rowOf[x])}
        Abs(t, x) == <<t[1] + x * MinPerDay, t[2]>>
        \* the following session is at most 30 days away, or there is a gap
        \* longer than any session
        Nxt(x) == IF \E y \in (x + 1) .. (x + 30) : y \in days
                  THEN CHOOSE y \in (x + 1) .. (x + 30) : y \in days /\ \A z \in (x + 1) .. (y - 1) : z \notin days
                  ELSE NegInf
        bad2 == {x \in days \ bad1 : LET y == Nxt(x) IN
                    y # NegInf /\ y \notin bad1 /\ ~Lt(Abs(rowOf[x][4], x), Abs(rowOf[y][1], y))}
        bad3 == {x \in days \ bad1 :
                    LET u == Abs(rowOf[x][4], x)[1] IN (u + OffsetAt(Z, u)) \div MinPerDay # x}
        B == bad1 \cup bad2 \cup bad3
    IN  IF B = {} THEN <<>>
        ELSE LET x == MinOf(B) IN Say("shape", [day |-> x, ordered |-> x \notin bad1,
                                                disjoint |-> x \notin bad2, label |-> x \notin bad3])

-----------------------------------------------------------------------------

Wanted == JsonDeserialize(IOEnv.WANTED)
Has(c) == c \in ToSet(Wanted)

Judge(ev) ==
    LET def == DefOf(ev)
        Z == ZoneSlice(def.tz, ev.lo, ev.hi)
        so == Spec(ev, def, "open")
        sc == Spec(ev, def, "close")
        E == SessionDays(def, ev.lo, ev.hi)
        off == {s \in so \cup sc : s[1] \notin E}
        offMust == off \ Edge(ev, Z, off)
        late == ToSet(ev.late)
        early == ToSet(ev.early)
        days == Recorded(ev) \cap E
        eso == Effective(ev, Z, so, late)
        esc == Effective(ev, Z, sc, early)
    IN
    IF ev.odd # "" THEN Say("odd", ev.odd)
    ELSE IF Has("refusal") /\ (Refused(def, sc, E) \/ Refused(def, sc \ Edge(ev, Z, sc), E)) THEN
        IF ev.k = "ok" /\ Refused(def, sc, E) /\ Refused(def, sc \ Edge(ev, Z, sc), E)
        THEN Say("refusal", "err") ELSE <<>>
    ELSE IF ev.k = "err" THEN
        IF off # {} \/ E = {} THEN <<>> ELSE IF Has("outcome") THEN Say("outcome", "ok") ELSE <<>>
    ELSE
      (IF Has("outcome") /\ offMust # {} THEN Say("outcome", "err") ELSE <<>>)
      \o (IF Has("sessions") THEN Sessions(ev, def) \o Ends(ev, def) \o Probes(ev, def) ELSE <<>>)
      \o (IF Has("rows") THEN Rows(ev, def, Z, eso, esc, days, "rows") ELSE <<>>)
      \o (IF Has("regular") THEN Rows(ev, def, Z, {}, {}, days \ (SpecialDays(so) \cup SpecialDays(sc)), "regular") ELSE <<>>)
      \o (IF Has("special") /\ offMust = {} THEN SpecialRows(ev, Z, eso, esc, days) \o Untouched(ev, eso, esc, days) ELSE <<>>)
      \o (IF Has("listing") /\ offMust = {} THEN Listing(ev, Z, so, late, days, "late") \o Listing(ev, Z, sc, early, days, "early") ELSE <<>>)
      \o (IF Has("shape") THEN Shape(ev, def, Z, Recorded(ev)) ELSE <<>>)

(* Instances of the known deviation seen in this event.                    *)
Known(ev) ==
    IF ev.odd # "" \/ ev.k = "err" THEN {}
    ELSE LET def == DefOf(ev)
             Z == ZoneSlice(def.tz, ev.lo, ev.hi)
             E == SessionDays(def, ev.lo, ev.hi)
         IN  {s[1] : s \in {s \in Edge(ev, Z, Spec(ev, def, "open")) : s[1] \in E /\ s[1] \notin ToSet(ev.late)}}
        \cup {s[1] : s \in {s \in Edge(ev, Z, Spec(ev, def, "close")) : s[1] \in E /\ s[1] \notin ToSet(ev.early)}}

VARIABLES i, bad, known
vars == <<i, bad, known>>
Init == i = 1 /\ bad = <<>> /\ known = <<>>
Next == /\ i <= Len(Trace)
        /\ LET j == Judge(Trace[i])
               k == IF Has("known") THEN Known(Trace[i]) ELSE {}
           IN  /\ bad' = IF j = <<>> THEN bad ELSE Append(bad, [i |-> i, say |-> j])
               /\ known' = IF k = {} THEN known ELSE Append(known, [i |-> i, days |-> k])
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad', known |-> known'])
Spec1 == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>, known |-> <<>>] ELSE TLCGet(1))
=============================================================================
