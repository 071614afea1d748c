---------------------------- MODULE CheckerTrace ----------------------------
(* Reports of the holiday checker (C27) and files of the answer-key writer  *)
(* (C28), judged one by one.                                                *)
(* Report: k = "report", first, last, open, key, min, n (how many days the  *)
(* tool says the key has), from, to (the span it says it compares), none,   *)
(* match, inkey, inopen (the days under the two headings), odd.             *)
(* File:   k = "file", rows and want: <<day, open, close>> per session.     *)
EXTENDS Checker, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[j] : j \in DOMAIN s}
Once(s) == Cardinality(ToSet(s)) = Len(s)

Report(ev) ==
    LET cal == [first |-> ev.first, last |-> ev.last, open |-> ToSet(ev.open)]
        key == ToSet(ev.key)
        op == Open(cal, key, ev.min)
        cl == Closed(cal, key, ev.min)
        we == WeekendOpen(cal, key, ev.min)
        shown == {x \in ToSet(ev.inkey) : IsWeekday(x)}
    IN  IF ev.odd # "" THEN <<"the tool's output", ev.odd>>
        ELSE IF key = {} THEN
             IF ev.none /\ ~ev.match /\ ev.inkey = <<>> /\ ev.inopen = <<>> THEN <<>>
             ELSE <<"no holidays in the key", "a word that there are none">>
        ELSE IF ev.none THEN <<"holidays in the key", Cardinality(key)>>
        ELSE IF ~Once(ev.inkey) \/ ~Once(ev.inopen) THEN <<"a day shown twice", "each day once">>
        ELSE IF shown # op THEN <<"holidays of the key that are sessions", op>>
        ELSE IF ~((ToSet(ev.inkey) \ shown) \subseteq we) THEN <<"weekend sessions", we>>
        ELSE IF ToSet(ev.inopen) # cl THEN <<"closed days missing from the key", cl>>
        ELSE IF ev.n # Cardinality(key) THEN <<"number of holidays", Cardinality(key)>>
        ELSE IF Compared(cal, key, ev.min) # {} /\ <<ev.from, ev.to>> # <<From(cal, key, ev.min), Until(cal, key)>>
             THEN <<"the days compared", <<From(cal, key, ev.min), Until(cal, key)>>>>
        ELSE IF ev.match /\ (ev.inkey # <<>> \/ ev.inopen # <<>>) THEN <<"a match", FALSE>>
        ELSE IF ~ev.match /\ op = {} /\ cl = {} /\ we = {} THEN <<"a match", TRUE>>
        ELSE <<>>

File(ev) ==
    IF ev.odd # "" THEN <<"the file", ev.odd>>
    ELSE IF ev.rows = ev.want THEN <<>>
    ELSE IF Len(ev.rows) # Len(ev.want) THEN <<"lines", Len(ev.want)>>
    ELSE LET j == CHOOSE j \in DOMAIN ev.rows : ev.rows[j] # ev.want[j] /\ \A h \in 1 .. j - 1 : ev.rows[h] = ev.want[h]
         IN  <<"line", <<j, ev.want[j]>>>>

Judge(ev) == IF ev.k = "report" THEN Report(ev) ELSE File(ev)

VARIABLES i, bad
vars == <<i, bad>>
Init == i = 1 /\ bad = <<>>
Next == /\ i <= Len(Trace)
        /\ LET v == Judge(Trace[i])
           IN  bad' = IF v = <<>> THEN bad ELSE Append(bad, [i |-> i, why |-> v[1], exp |-> v[2]])
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>] ELSE TLCGet(1))
=============================================================================
