------------------------------ MODULE Queries ------------------------------
(***************************************************************************)
(* What every query of a calendar returns, given its schedule.             *)
(*                                                                         *)
(* A schedule S is a sequence of sessions <<day, open, bstart, bend,       *)
(* close>> in order.  Instants are <<minute, second, nanosecond>> with the *)
(* minute counted from 1970-01-01 UTC; bstart = bend = None without break. *)
(*                                                                         *)
(* A list of minutes is a sequence of runs <<minute, second, n>>: n        *)
(* consecutive minutes starting at that instant, runs maximal.             *)
(*                                                                         *)
(* A result is a tuple tagged "err", "bool", "int", "ts", "day", "days",   *)
(* "runs", "pair" or "rows".                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == <<-1000000000, 0, 0>>
Err == <<"err">>

Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
Le(a, b) == a = b \/ Lt(a, b)

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Day(s)    == s[1]
Open(s)   == s[2]
BStart(s) == s[3]
BEnd(s)   == s[4]
Close(s)  == s[5]
HasBreak(s) == BStart(s) # None

(* First/last index of S satisfying P, 0 when there is none.  (Sessions are *)
(* ordered, so the predicates used below are monotone in the index.)       *)
RECURSIVE FirstIn(_, _, _, _)
FirstIn(P(_), S, lo, hi) ==       \* P false below, true above
    IF lo > hi THEN lo
    ELSE LET mid == (lo + hi) \div 2
         IN  IF P(S[mid]) THEN FirstIn(P, S, lo, mid - 1) ELSE FirstIn(P, S, mid + 1, hi)
FirstIx(S, P(_)) == LET i == FirstIn(P, S, 1, Len(S)) IN IF i > Len(S) THEN 0 ELSE i
LastIx(S, P(_))  == LET NP(s) == ~P(s) IN FirstIn(NP, S, 1, Len(S)) - 1

-----------------------------------------------------------------------------
(* C05: open or closed.                                                    *)
Containing(S, t) ==     \* index of the session open <= t <= close, or 0
    LET i == LastIx(S, LAMBDA s : Le(Open(s), t))
    IN  IF i # 0 /\ Le(t, Close(S[i])) THEN i ELSE 0
InBreak(s, t) == HasBreak(s) /\ Le(BStart(s), t) /\ Lt(t, BEnd(s))
IsOpen(S, t, ignoreBreaks) ==
    LET i == Containing(S, t)
    IN  i # 0 /\ (ignoreBreaks \/ ~InBreak(S[i], t))

-----------------------------------------------------------------------------
(* C06: the trading minutes.  V = TRUE describes the implementation's      *)
(* deviation F1: the minute at which a break starts is listed as trading.  *)
SessionRuns(s, V) ==
    IF HasBreak(s)
    THEN <<<<Open(s)[1], Open(s)[2], BStart(s)[1] - Open(s)[1] + (IF V THEN 1 ELSE 0)>>,
           <<BEnd(s)[1], BEnd(s)[2], Close(s)[1] - BEnd(s)[1] + 1>>>>
    ELSE <<<<Open(s)[1], Open(s)[2], Close(s)[1] - Open(s)[1] + 1>>>>

RECURSIVE RunsFrom(_, _, _)
RunsFrom(S, V, i) == IF i > Len(S) THEN <<>> ELSE SessionRuns(S[i], V) \o RunsFrom(S, V, i + 1)

RECURSIVE Glue(_, _, _)
Glue(rs, i, acc) ==    \* drop empty runs, join adjacent ones
    IF i > Len(rs) THEN acc
    ELSE IF rs[i][3] <= 0 THEN Glue(rs, i + 1, acc)
    ELSE LET n == Len(acc) IN
         IF n > 0 /\ acc[n][2] = rs[i][2] /\ acc[n][1] + acc[n][3] = rs[i][1]
         THEN Glue(rs, i + 1, [acc EXCEPT ![n] = <<@[1], @[2], @[3] + rs[i][3]>>])
         ELSE Glue(rs, i + 1, Append(acc, rs[i]))
Runs(S, V) == Glue(RunsFrom(S, V, 1), 1, <<>>)

RunMinute(r, k) == <<r[1] + k, r[2], 0>>            \* k = 0 .. r[3]-1
(* How many minutes of run r are < t, or <= t.                             *)
RunBelow(r, t, incl) ==
    LET f == t[1] - r[1]                              \* whole minutes
        at == <<t[1], r[2], 0>>                       \* grid point in t's minute
        n == IF Lt(at, t) \/ (incl /\ at = t) THEN f + 1 ELSE f
    IN  Max(0, Min(r[3], n))

RECURSIVE CountFrom(_, _, _, _)
CountFrom(R, t, incl, i) == IF i > Len(R) THEN 0 ELSE RunBelow(R[i], t, incl) + CountFrom(R, t, incl, i + 1)
CountLt(R, t) == CountFrom(R, t, FALSE, 1)            \* minutes before t
CountLe(R, t) == CountFrom(R, t, TRUE, 1)
RECURSIVE Total(_, _)
Total(R, i) == IF i > Len(R) THEN 0 ELSE R[i][3] + Total(R, i + 1)

RECURSIVE MinuteAtFrom(_, _, _)
MinuteAtFrom(R, k, i) == IF k < R[i][3] THEN RunMinute(R[i], k) ELSE MinuteAtFrom(R, k - R[i][3], i + 1)
MinuteAt(R, k) == MinuteAtFrom(R, k, 1)               \* k = 0 .. Total-1

(* Minutes number a .. b-1.                                                *)
RECURSIVE SliceFrom(_, _, _, _)
SliceFrom(R, a, b, i) ==
    IF i > Len(R) \/ b <= 0 THEN <<>>
    ELSE LET n == R[i][3]
             x == Max(a, 0)
             y == Min(b, n)
         IN  (IF x < y THEN <<<<R[i][1] + x, R[i][2], y - x>>>> ELSE <<>>)
             \o SliceFrom(R, a - n, b - n, i + 1)
Slice(R, a, b) == SliceFrom(R, a, b, 1)

MinutesInRange(R, a, b) == Slice(R, CountLt(R, a), CountLe(R, b))

Window(R, t, c) ==
    LET n == Total(R, 1)
        below == CountLe(R, t)              \* start minute has number below-1
        start == below - 1
    IN  IF below = 0 \/ Lt(MinuteAt(R, n - 1), t) THEN Err
        ELSE IF c >= 0 THEN <<"runs", Slice(R, start, Min(n, start + c))>>
        ELSE <<"runs", Slice(R, Max(0, start + c + 1), start + 1)>>

-----------------------------------------------------------------------------
(* Sessions by label.                                                      *)
IxOfDay(S, d) == LET i == FirstIx(S, LAMBDA s : Day(s) >= d)
                 IN  IF i # 0 /\ Day(S[i]) = d THEN i ELSE 0
FromDay(S, d) == LET i == FirstIx(S, LAMBDA s : Day(s) >= d) IN IF i = 0 THEN Len(S) + 1 ELSE i
ToDay(S, d) == LastIx(S, LAMBDA s : Day(s) <= d)
DaysOf(S, a, b) == [i \in 1 .. Max(0, b - a + 1) |-> Day(S[a + i - 1])]

RECURSIVE IdealCount(_, _, _)
IdealCount(S, a, b) ==
    IF a > b THEN 0
    ELSE LET s == S[a] IN
         Close(s)[1] - Open(s)[1] + 1 - (IF HasBreak(s) THEN BEnd(s)[1] - BStart(s)[1] ELSE 0)
         + IdealCount(S, a + 1, b)

AbsI(n) == IF n < 0 THEN -n ELSE n

-----------------------------------------------------------------------------
(* The answer to a query.  q = <<name, args...>>; x = <<kind, a, b>> the    *)
(* execution window rule: shift of open and close in minutes.              *)
NextIx(S, Time(_), t) == FirstIx(S, LAMBDA s : Lt(t, Time(s)))
PrevIx(S, Time(_), t) == LastIx(S, LAMBDA s : Lt(Time(s), t))
Ts(S, i, Time(_)) == IF i = 0 THEN Err ELSE <<"ts", Time(S[i])>>
DayAt(S, i) == IF i = 0 THEN Err ELSE <<"day", Day(S[i])>>
Shift(t, m) == <<t[1] + m, t[2], t[3]>>

ToSession(S, t, dir) ==
    LET c == Containing(S, t) IN
    CASE dir = "next" -> DayAt(S, FirstIx(S, LAMBDA s : Le(t, Close(s))))
      [] dir = "previous" -> IF c # 0 THEN DayAt(S, c) ELSE DayAt(S, LastIx(S, LAMBDA s : Lt(Close(s), t)))
      [] dir = "none" -> IF IsOpen(S, t, FALSE) THEN DayAt(S, c) ELSE Err
      [] OTHER -> Err

Bulk(S, ts) ==
    IF \/ \E i \in 1 .. Len(ts) - 1 : Lt(ts[i + 1], ts[i])
       \/ \E i \in 1 .. Len(ts) : Containing(S, ts[i]) = 0
    THEN Err ELSE <<"days", [i \in 1 .. Len(ts) |-> Day(S[Containing(S, ts[i])])]>>

ExecRuns(S, R, x, i) == MinutesInRange(R, Shift(Open(S[i]), x[1]), Shift(Close(S[i]), x[2]))
RECURSIVE ExecRange(_, _, _, _, _)
ExecRange(S, R, x, a, b) == IF a > b THEN <<>> ELSE ExecRuns(S, R, x, a) \o ExecRange(S, R, x, a + 1, b)

Answer(S, R, x, q) ==
    CASE q[1] = "is_open"        -> <<"bool", IsOpen(S, q[2], q[3])>>
      [] q[1] = "next_open"      -> Ts(S, NextIx(S, Open, q[2]), Open)
      [] q[1] = "next_close"     -> Ts(S, NextIx(S, Close, q[2]), Close)
      [] q[1] = "previous_open"  -> Ts(S, PrevIx(S, Open, q[2]), Open)
      [] q[1] = "previous_close" -> Ts(S, PrevIx(S, Close, q[2]), Close)
      [] q[1] = "next_minute"    -> LET k == CountLe(R, q[2])
                                    IN  IF k >= Total(R, 1) THEN Err ELSE <<"ts", MinuteAt(R, k)>>
      [] q[1] = "previous_minute" -> LET k == CountLt(R, q[2])
                                     IN  IF k = 0 THEN Err ELSE <<"ts", MinuteAt(R, k - 1)>>
      [] q[1] = "to_session"     -> ToSession(S, q[2], q[3])
      [] q[1] = "bulk"           -> Bulk(S, q[2])
      [] q[1] = "all_minutes"    -> <<"runs", R>>
      [] q[1] = "minutes_for_session" ->
            LET i == IxOfDay(S, q[2]) IN
            IF i = 0 THEN Err ELSE <<"runs", MinutesInRange(R, Open(S[i]), Close(S[i]))>>
      [] q[1] = "minutes_for_sessions" ->
            LET i == IxOfDay(S, q[2])  j == IxOfDay(S, q[3]) IN
            IF i = 0 \/ j = 0 THEN Err ELSE <<"runs", MinutesInRange(R, Open(S[i]), Close(S[j]))>>
      [] q[1] = "minutes_in_range" -> <<"runs", MinutesInRange(R, q[2], q[3])>>
      [] q[1] = "minutes_window" -> Window(R, q[2], q[3])
      [] q[1] = "minutes_count"  -> <<"int", IdealCount(S, FromDay(S, q[2]), ToDay(S, q[3]))>>
      [] q[1] = "exec_session"   ->
            LET i == IxOfDay(S, q[2]) IN
            IF i = 0 THEN Err ELSE <<"runs", Glue(ExecRuns(S, R, x, i), 1, <<>>)>>
      [] q[1] = "exec_range"     ->
            LET a == FromDay(S, q[2])  b == ToDay(S, q[3]) IN
            <<"runs", Glue(ExecRange(S, R, x, a, b), 1, <<>>)>>
      [] q[1] = "is_session"     -> <<"bool", q[2][2] = 0 /\ q[2][3] = 0 /\ q[2][1] % 1440 = 0
                                              /\ IxOfDay(S, q[2][1] \div 1440) # 0>>
      [] q[1] = "next_session"   -> LET i == IxOfDay(S, q[2]) IN
                                    IF i = 0 \/ i = Len(S) THEN Err ELSE DayAt(S, i + 1)
      [] q[1] = "previous_session" -> LET i == IxOfDay(S, q[2]) IN
                                    IF i <= 1 THEN Err ELSE DayAt(S, i - 1)
      [] q[1] = "sessions_in_range" -> <<"days", DaysOf(S, FromDay(S, q[2]), ToDay(S, q[3]))>>
      [] q[1] = "sessions_window" ->
            LET i == IxOfDay(S, q[2]) IN
            IF i = 0 THEN Err
            ELSE IF q[3] >= 0 THEN <<"days", DaysOf(S, i, Min(Len(S), i + q[3]))>>
            ELSE <<"days", DaysOf(S, Max(1, i + q[3]), i)>>
      [] q[1] = "session_distance" ->
            LET lo == Min(q[2], q[3])  hi == Max(q[2], q[3])
                n == Max(0, ToDay(S, hi) - FromDay(S, lo) + 1)
            IN  <<"int", IF q[3] < q[2] THEN -n ELSE n>>
      [] q[1] = "open_and_close" -> LET i == IxOfDay(S, q[2]) IN
                                    IF i = 0 THEN Err ELSE <<"pair", Open(S[i]), Close(S[i])>>
      [] q[1] = "break_start_and_end" -> LET i == IxOfDay(S, q[2]) IN
                                    IF i = 0 THEN Err ELSE <<"pair", BStart(S[i]), BEnd(S[i])>>
      [] q[1] = "session_open"   -> Ts(S, IxOfDay(S, q[2]), Open)
      [] q[1] = "session_close"  -> Ts(S, IxOfDay(S, q[2]), Close)
      [] q[1] = "session_break_start" -> Ts(S, IxOfDay(S, q[2]), BStart)
      [] q[1] = "session_break_end"   -> Ts(S, IxOfDay(S, q[2]), BEnd)
      [] q[1] = "opens_in_range" -> LET a == FromDay(S, q[2]) b == ToDay(S, q[3]) IN
            <<"rows", [i \in 1 .. Max(0, b - a + 1) |-> <<Day(S[a + i - 1]), Open(S[a + i - 1])>>]>>
      [] q[1] = "closes_in_range" -> LET a == FromDay(S, q[2]) b == ToDay(S, q[3]) IN
            <<"rows", [i \in 1 .. Max(0, b - a + 1) |-> <<Day(S[a + i - 1]), Close(S[a + i - 1])>>]>>
      [] q[1] = "first_session"  -> DayAt(S, 1)
      [] q[1] = "last_session"   -> DayAt(S, Len(S))
      [] q[1] = "all_sessions"   -> <<"days", DaysOf(S, 1, Len(S))>>
      [] q[1] = "opens"          -> <<"rows", [i \in 1 .. Len(S) |-> <<Day(S[i]), Open(S[i])>>]>>
      [] q[1] = "closes"         -> <<"rows", [i \in 1 .. Len(S) |-> <<Day(S[i]), Close(S[i])>>]>>
=============================================================================
