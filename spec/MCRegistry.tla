----------------------------- MODULE MCRegistry -----------------------------
(* The registry as a state machine: exhaustive check of its guarantees, and *)
(* (with LOG) generator of every transition for replay into the code.       *)
EXTENDS Registry, Json, IOUtils

CONSTANTS MaxBuilt,   \* bound on instances built
          FromAny     \* TRUE: start from every constructor-supplied content

VARIABLES reg, last
vars == <<reg, last>>

MaybeNames == Names \cup {None}
AnyReg == [cal : [Names -> Objs \cup {None}],
           typ : [Names -> Types \cup {None}],
           ali : [Names -> MaybeNames],
           nb  : {0}]

Start == [op |-> "start"]
Init == /\ reg \in (IF FromAny THEN AnyReg ELSE {EmptyReg})
        /\ last = [o |-> Start, res |-> [k |-> "ok", v |-> ""]]

Next == \E o \in Ops :
            LET e == Eff(reg, o)
            IN  /\ reg' = e.reg
                /\ last' = [o |-> o, res |-> e.res]

Spec == Init /\ [][Next]_vars

Bound == reg.nb <= MaxBuilt
View == reg
Log == \/ "LOG" \notin DOMAIN IOEnv
       \/ PrintT("T " \o ToJson([f |-> reg, o |-> last'.o, r |-> last'.res, t |-> reg']))

-----------------------------------------------------------------------------
(* The guarantees (C11, C12, C13).                                          *)

TypeOK == /\ DOMAIN reg = {"cal", "typ", "ali", "nb"}
          /\ \A n \in Names : reg.typ[n] \in Types \cup {None} /\ reg.ali[n] \in MaybeNames

(* C12: no history of operations creates an alias cycle.                    *)
CycleFree == FromAny \/ ~Cyclic(reg)
(* C12: an operation that is refused changes nothing.                       *)
FailureAtomic == [][last'.res.k = "err" => reg' = reg]_vars
(* C12: cycles are never introduced, even next to a supplied one.           *)
NoNewCycle == [][~Cyclic(reg) => ~Cyclic(reg')]_vars
(* C13: only a lookup builds, one instance at a time.                       *)
LazyBuild == [][reg'.nb # reg.nb => last'.o.op = "get" /\ reg'.nb = reg.nb + 1]_vars
(* C13: a held instance stays until its name is re-registered or removed.   *)
Stable == [][\A n \in Names :
               reg.cal[n] # None /\ reg'.cal[n] # reg.cal[n] =>
                   \/ last'.o.op \in {"dereg", "clear"}
                   \/ last'.o.op \in {"reg", "regType", "regAlias"} /\ last'.o.force /\ last'.o.n = n]_vars
(* C13: no instance is ever held under two names.                           *)
OneHome == \A m, n \in Names : m # n /\ reg.cal[m] # None /\ reg.cal[m] \notin Objs => reg.cal[m] # reg.cal[n]
(* C11: a name registered through the API has exactly one meaning.          *)
OneMeaning == FromAny \/ \A n \in Names :
                 reg.ali[n] # None => reg.cal[n] = None /\ reg.typ[n] = None
(* C11: a lookup that succeeds is answered identically by every alias.      *)
AliasesAgree == \A n \in Names : LET c == Resolve(reg, n) IN
                  c.k = "name" => Get(reg, Op("get", n, "", FALSE, FALSE)).res
                                = Get(reg, Op("get", c.v, "", FALSE, FALSE)).res
(* C11: an unforced registration of a taken name is refused, of a free name *)
(* is refused only for a cycle; a forced one replaces the old meaning.      *)
Refusal == [][last'.o.op \in {"reg", "regType", "regAlias"} =>
                /\ (~last'.o.force /\ last'.o.n \in Registered(reg)) <=> last'.res.v = "collision"
                /\ last'.res.k = "ok" =>
                      LET n == last'.o.n IN
                      CASE last'.o.op = "reg" -> reg'.cal[n] = last'.o.x /\ reg'.typ[n] = None /\ reg'.ali[n] = None
                        [] last'.o.op = "regType" -> reg'.cal[n] = None /\ reg'.typ[n] = last'.o.x /\ reg'.ali[n] = None
                        [] OTHER -> reg'.cal[n] = None /\ reg'.typ[n] = None /\ reg'.ali[n] = last'.o.x
             ]_vars
=============================================================================
