---------------------------- MODULE RegistryTrace ---------------------------
(* Checks histories recorded from the real registry against Registry.tla.   *)
(* Event "new" starts a history with constructor-supplied content; "op" is  *)
(* one call with its observed result and the number of instances built so   *)
(* far.  The verdict is total: a step the specification does not allow is   *)
(* noted with what was expected and the rest of that history is skipped.    *)
EXTENDS Registry, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceNames == {Trace[1].names[i] : i \in DOMAIN Trace[1].names}

VARIABLES l, reg, live, bad, nok
vars == <<l, reg, live, bad, nok>>

Fill(f) == [n \in Names |-> IF n \in DOMAIN f THEN f[n] ELSE None]

Init == /\ l = 2 /\ reg = EmptyReg /\ live = TRUE /\ bad = <<>> /\ nok = 0

Range(s) == {s[i] : i \in DOMAIN s}
Match(obs, exp) ==
    /\ obs.k = exp.k
    /\ IF exp.k = "names"
       THEN Range(obs.v) = exp.v /\ Len(obs.v) = Cardinality(exp.v)
       ELSE obs.v = exp.v

NewHistory == /\ Trace[l].e = "new"
              /\ reg' = [cal |-> Fill(Trace[l].cal), typ |-> Fill(Trace[l].typ),
                         ali |-> Fill(Trace[l].ali), nb |-> 0]
              /\ live' = TRUE
              /\ UNCHANGED <<bad, nok>>

Step == /\ Trace[l].e = "op" /\ live
        /\ LET o == Trace[l]
               e == IF Loose(reg, o) /\ o.res.k = "ok" THEN Ok(Aliased(reg, o))
                    ELSE Eff(reg, o)
           IN  IF Match(o.res, e.res) /\ o.nb = e.reg.nb
               THEN /\ reg' = e.reg /\ nok' = nok + 1
                    /\ UNCHANGED <<live, bad>>
               ELSE /\ bad' = Append(bad, [i |-> l, exp |-> e.res, nb |-> e.reg.nb,
                                           before |-> reg])
                    /\ live' = FALSE
                    /\ UNCHANGED <<reg, nok>>

Skip == /\ Trace[l].e = "op" /\ ~live /\ UNCHANGED <<reg, live, bad, nok>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ NewHistory \/ Step \/ Skip
        /\ TLCSet(1, [l |-> l', bad |-> bad', nok |-> nok'])

Spec == Init /\ [][Next]_vars

Verdict == LET r == TLCGet(1)
           IN  /\ r.l = Len(Trace) + 1
               /\ JsonSerialize(IOEnv.OUT, r)
=============================================================================
