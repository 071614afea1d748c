------------------------------ MODULE LazyTrace ------------------------------
(* Checks recorded histories of memoised attributes against LazyVal.  Event *)
(* "start" begins a history; any other is one operation with its outcome    *)
(* res = [k, v, ran]: v is the number of the computation that made the      *)
(* returned value (-1: value not identifiable, e.g. None), ran the          *)
(* attributes computed during the operation, in order.                      *)
EXTENDS LazyVal, Json, IOUtils, Integers

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, live, bad
vars == <<l, st, live, bad>>
Init == l = 1 /\ st = Empty /\ live = TRUE /\ bad = <<>>

OpOf(ev) == [op |-> ev.op, o |-> ev.o, a |-> ev.a, fails |-> {ev.fails[i] : i \in DOMAIN ev.fails}]
Match(obs, exp) == /\ obs.k = exp.k /\ obs.ran = exp.ran
                   /\ obs.v = exp.v \/ (obs.v = -1 /\ exp.k = "val")

Start == /\ Trace[l].op = "start" /\ st' = Empty /\ live' = TRUE /\ UNCHANGED bad
Step == /\ Trace[l].op # "start" /\ live
        /\ LET e == Eff(st, OpOf(Trace[l])) IN
           IF Match(Trace[l].res, e.res)
           THEN st' = e.s /\ UNCHANGED <<live, bad>>
           ELSE bad' = Append(bad, [i |-> l, exp |-> e.res]) /\ live' = FALSE /\ UNCHANGED st
Skip == Trace[l].op # "start" /\ ~live /\ UNCHANGED <<st, live, bad>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ Start \/ Step \/ Skip
        /\ TLCSet(1, [n |-> l, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
