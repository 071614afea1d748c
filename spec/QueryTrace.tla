----------------------------- MODULE QueryTrace -----------------------------
(***************************************************************************)
(* Checks recorded query answers against Queries.  Events:                 *)
(*   [e |-> "cal", S, V, given, R, x]  a calendar: its schedule, whether   *)
(*          it lists the break-start minute (F1), its list of minutes R if *)
(*          that is to be taken as given rather than derived from S,       *)
(*          execution window shifts x                                      *)
(*   [e |-> "q", q, r]           a query and what it returned              *)
(***************************************************************************)
EXTENDS Queries, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S, R, x, bad
vars == <<i, S, R, x, bad>>
Init == i = 1 /\ S = <<>> /\ R = <<>> /\ x = <<0, 0>> /\ bad = <<>>
Cal(ev) == /\ S' = ev.S
           /\ R' = IF ev.given THEN ev.R ELSE Runs(ev.S, ev.V)
           /\ x' = ev.x
           /\ UNCHANGED bad
Query(ev) ==
    LET a == Answer(S, R, x, ev.q)
        \* an empty range of sessions may be refused instead of giving nothing
        ok == ev.r = a \/ (ev.q[1] = "exec_range" /\ a = <<"runs", <<>>>> /\ ev.r = Err)
    IN  /\ bad' = IF ok THEN bad ELSE Append(bad, [i |-> i, exp |-> a])
        /\ UNCHANGED <<S, R, x>>
Next == /\ i <= Len(Trace)
        /\ IF Trace[i].e = "cal" THEN Cal(Trace[i]) ELSE Query(Trace[i])
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>] ELSE TLCGet(1))
=============================================================================
