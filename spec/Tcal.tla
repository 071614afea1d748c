-------------------------------- MODULE Tcal ---------------------------------
(***************************************************************************)
(* What the command-line calendar shows (C21).  A month is a sequence of   *)
(* weeks of seven cells, Sunday first; a cell is 0 (empty), d (open day)   *)
(* or -d (day marked closed).                                              *)
(***************************************************************************)
EXTENDS DateMath, Json, IOUtils, TLC

MonthNames == <<"January", "February", "March", "April", "May", "June", "July",
                "August", "September", "October", "November", "December">>

Column(x) == ((Weekday(x) + 1) % 7) + 1            \* 1 = Sunday

(* First column of the month, number of weeks, and the cell in each place. *)
Lead(y, m) == Column(DayNum(y, m, 1)) - 1
Weeks(y, m) == (Lead(y, m) + MonthLen(y, m) + 6) \div 7
Cell(y, m, open, w, c) ==
    LET d == (w - 1) * 7 + c - Lead(y, m)
    IN  IF d < 1 \/ d > MonthLen(y, m) THEN 0
        ELSE IF DayNum(y, m, d) \in open THEN d ELSE -d
Grid(y, m, open) == [w \in 1 .. Weeks(y, m) |-> [c \in 1 .. 7 |-> Cell(y, m, open, w, c)]]

(* The two forms: one month with the year in its title, or a year of       *)
(* twelve months under the year.                                           *)
MonthView(y, m, open) == <<[title |-> MonthNames[m] \o " " \o ToString(y), grid |-> Grid(y, m, open)]>>
YearView(y, open) == [m \in 1 .. 12 |-> [title |-> MonthNames[m], grid |-> Grid(y, m, open)]]

-----------------------------------------------------------------------------
(* Consistency of the grid itself.                                         *)
GridOK(y, m, open) ==
    LET g == Grid(y, m, open)
        Abs(v) == IF v < 0 THEN -v ELSE v
        places == {<<w, c>> \in (1 .. Len(g)) \X (1 .. 7) : g[w][c] # 0}
    IN  /\ {Abs(g[p[1]][p[2]]) : p \in places} = 1 .. MonthLen(y, m)
        /\ Cardinality(places) = MonthLen(y, m)
        /\ \A p \in places : LET x == DayNum(y, m, Abs(g[p[1]][p[2]])) IN
              /\ Column(x) = p[2]
              /\ (g[p[1]][p[2]] > 0) = (x \in open)
        /\ \A w \in 1 .. Len(g) : \E c \in 1 .. 7 : g[w][c] # 0

-----------------------------------------------------------------------------
(* Recorded outputs: form ("month", "year", "now"), y, m (the clock for    *)
(* "now": nows = sequence of <<y, m>> before and after), open = sessions   *)
(* of the shown days, shown = the months as read from the output, heading  *)
(* = text above them.                                                      *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[i] : i \in DOMAIN s}
Say(why, exp) == <<[why |-> why, exp |-> exp]>>

Want(ev, y, m) == IF ev.form = "year" THEN YearView(y, ToSet(ev.open)) ELSE MonthView(y, m, ToSet(ev.open))
Judge(ev) ==
    LET cands == IF ev.form = "now" THEN ToSet(ev.nows) ELSE {<<ev.y, ev.m>>}
        wants == {Want(ev, c[1], c[2]) : c \in cands}
    IN  IF ev.odd # "" THEN Say("unreadable", ev.odd)
        ELSE IF ev.form = "year" /\ ev.heading # ToString(ev.y) THEN Say("heading", ToString(ev.y))
        ELSE IF \E w \in wants : ev.shown = w THEN <<>>
        ELSE LET w == CHOOSE w \in wants : TRUE IN
             IF Len(w) # Len(ev.shown) THEN Say("months", Len(w))
             ELSE LET k == CHOOSE k \in DOMAIN w : w[k] # ev.shown[k] IN Say("month", w[k])

VARIABLES i, bad
vars == <<i, bad>>
Init == i = 1 /\ bad = <<>>
Next == /\ i <= Len(Trace)
        /\ LET j == Judge(Trace[i]) IN bad' = IF j = <<>> THEN bad ELSE Append(bad, [i |-> i, say |-> j])
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
