----------------------------- MODULE RangeTrace -----------------------------
(***************************************************************************)
(* C04.  A history of calendar constructions of several kinds.  What is    *)
(* known of a kind is, for every day seen so far, whether it is a session, *)
(* its times and its specials; every construction (or re-reading of an     *)
(* existing instance) must agree with what is known and adds to it.        *)
(* Hence a history is accepted iff there is one schedule per kind, the     *)
(* same for all ranges, instances and construction orders.                 *)
(*                                                                         *)
(* Event: kind, lo, hi, k ("ok"/"err"), irr, segs, late, early, odd        *)
(* (encodings as in ScheduleTrace).                                        *)
(***************************************************************************)
EXTENDS DateMath, Sequences, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

ToSet(s) == {s[i] : i \in DOMAIN s}
IsWeekend(x) == Weekday(x) \in {SAT, SUN}

Value(ev, irr, late, early, x) ==
    IF IsWeekend(x) # (x \in irr)
    THEN [s |-> FALSE, open |-> <<>>, rest |-> <<>>, l |-> FALSE, e |-> FALSE, hi |-> 0]
    ELSE LET g == ev.segs[CHOOSE i \in DOMAIN ev.segs : ev.segs[i][1] <= x /\ x <= ev.segs[i][2]]
         IN  [s |-> TRUE, open |-> g[3], rest |-> <<g[4], g[5], g[6]>>,
              l |-> x \in late, e |-> x \in early, hi |-> ev.hi]

Content(ev) == LET irr == ToSet(ev.irr)  late == ToSet(ev.late)  early == ToSet(ev.early)
               IN  [x \in ev.lo .. ev.hi |-> Value(ev, irr, late, early, x)]

(* Finding F2: a special whose instant is after midnight UTC of the last  *)
(* day of the range may have been ignored.                                 *)
After(t, x, hi) == LET m == t[1] + x * 1440 IN m > hi * 1440 \/ (m = hi * 1440 /\ t[2] > 0)
LostOpen(a, b, x)  == ~a.l /\ b.l /\ After(b.open, x, a.hi)
LostClose(a, b, x) == ~a.e /\ b.e /\ After(b.rest[3], x, a.hi)
Dropped(a, b, x) == a.s /\ b.s /\ (LostOpen(a, b, x) \/ LostClose(a, b, x))
Agree(a, b, x) ==
    /\ a.s = b.s
    /\ (a.l = b.l /\ a.open = b.open) \/ LostOpen(a, b, x) \/ LostOpen(b, a, x)
    /\ (a.e = b.e /\ a.rest = b.rest) \/ LostClose(a, b, x) \/ LostClose(b, a, x)

(* Prefer what was learnt from the range reaching further.                 *)
Merge(new, old) == [x \in DOMAIN new \cup DOMAIN old |->
                      IF x \notin DOMAIN new THEN old[x]
                      ELSE IF x \notin DOMAIN old THEN new[x]
                      ELSE IF old[x].hi < new[x].hi THEN new[x] ELSE old[x]]

VARIABLES i, know, bad, known
vars == <<i, know, bad, known>>

Kinds == {Trace[j].kind : j \in DOMAIN Trace}
Empty == [x \in {} |-> 0]
Init == i = 1 /\ know = [k \in Kinds |-> Empty] /\ bad = <<>> /\ known = 0

Build ==
    LET ev == Trace[i]
        c == Content(ev)
        old == know[ev.kind]
        both == DOMAIN c \cap DOMAIN old
        off == {x \in both : ~Agree(c[x], old[x], x)}
        dr == {x \in both : Dropped(c[x], old[x], x) \/ Dropped(old[x], c[x], x)}
    IN  IF ev.odd # "" THEN /\ bad' = Append(bad, [i |-> i, day |-> ev.lo, n |-> 0, why |-> ev.odd])
                            /\ UNCHANGED <<know, known>>
        ELSE IF ev.k = "err"
        \* a range of closed days only cannot be built; any other refusal
        \* contradicts a larger range having been built
        THEN /\ bad' = IF \E x \in (ev.lo .. ev.hi) \cap DOMAIN old : old[x].s
                       THEN Append(bad, [i |-> i, day |-> ev.lo, n |-> 1, why |-> "refused"]) ELSE bad
             /\ UNCHANGED <<know, known>>
        ELSE /\ bad' = IF off = {} THEN bad
                       ELSE Append(bad, [i |-> i, day |-> MinOf(off), n |-> Cardinality(off), why |-> "differs"])
             /\ know' = [know EXCEPT ![ev.kind] = Merge(c, old)]
             /\ known' = known + Cardinality(dr)

Next == /\ i <= Len(Trace)
        /\ Build
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad', known |-> known'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>, known |-> 0] ELSE TLCGet(1))
=============================================================================
