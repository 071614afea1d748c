--------------------------- MODULE DirectoryTrace ----------------------------
(* Checks histories recorded from the package-level functions, starting     *)
(* from the default registry, against Registry and Directory.  Calendars    *)
(* are reported as "<own name>#<k>", k counting the instances seen; every   *)
(* lookup also reports the calendar's zone.                                 *)
EXTENDS Registry, Directory, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
UserNames == {"mine", "yours", "XXXX", "nyse"}
AllNames == DefaultNames \cup UserNames

DefaultReg ==
    [cal |-> [n \in Names |-> None],
     typ |-> [n \in Names |-> IF n \in ExchangeNames THEN OwnName(n) ELSE None],
     ali |-> [n \in Names |-> IF n \in DOMAIN DefaultAliases THEN DefaultAliases[n] ELSE None],
     nb |-> 0]

VARIABLES l, reg, live, bad, zone
vars == <<l, reg, live, bad, zone>>
Init == l = 1 /\ reg = DefaultReg /\ live = TRUE /\ bad = <<>>
        /\ zone = [x \in {OwnName(y) : y \in ExchangeNames} |->
                      ZoneOf(CHOOSE y \in ExchangeNames : OwnName(y) = x)]

Range(s) == {s[i] : i \in DOMAIN s}
Match(obs, exp) ==
    /\ obs.k = exp.k
    /\ IF exp.k = "names" THEN Range(obs.v) = exp.v /\ Len(obs.v) = Cardinality(exp.v)
       ELSE obs.v = exp.v

Step ==
    LET o == Trace[l]
        e == Eff(reg, o)
    IN  /\ o.e = "op" /\ live
        /\ IF ~Match(o.res, e.res) \/ o.nb # e.reg.nb
           THEN /\ bad' = Append(bad, [i |-> l, why |-> "history", exp |-> e.res])
                /\ live' = FALSE /\ UNCHANGED reg
           ELSE /\ reg' = e.reg /\ UNCHANGED live
                /\ bad' = IF o.own \in DOMAIN zone /\ o.zone # zone[o.own]
                          THEN Append(bad, [i |-> l, why |-> "zone", exp |-> [k |-> "zone", v |-> zone[o.own]]])
                          ELSE bad
        /\ UNCHANGED zone
NewHistory == Trace[l].e = "default" /\ reg' = DefaultReg /\ live' = TRUE /\ UNCHANGED <<bad, zone>>
Skip == Trace[l].e = "op" /\ ~live /\ UNCHANGED <<reg, live, bad, zone>>
(* The advertised list of exchange names.                                  *)
Listed == /\ Trace[l].e = "advertised"
          /\ bad' = IF Range(Trace[l].names) = ExchangeNames THEN bad
                    ELSE Append(bad, [i |-> l, why |-> "advertised", exp |-> [k |-> "names", v |-> ExchangeNames]])
          /\ UNCHANGED <<reg, live, zone>>

Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ NewHistory \/ Step \/ Skip \/ Listed
        /\ TLCSet(1, [n |-> l, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
