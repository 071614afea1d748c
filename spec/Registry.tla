------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The calendar registry (dispatcher): three partial maps from names to    *)
(* calendars, calendar types and other names, and the operations on them.  *)
(*                                                                         *)
(*   reg.cal[n]  calendar instance held under n, or None                   *)
(*   reg.typ[n]  calendar type registered under n (built lazily), or None  *)
(*   reg.ali[n]  name that n is an alias of, or None                       *)
(*   reg.nb      how many instances have been built so far                 *)
(*                                                                         *)
(* Eff(r, o) gives the result of operation o in registry state r and the   *)
(* state after it.  It is the only definition of behaviour: the exhaustive *)
(* model, the generator of replayed behaviours and the checker of recorded *)
(* histories all use it.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Names,      \* strings
          Objs,       \* ready-made calendar instances (strings)
          Types       \* calendar types (strings)

None == "-"

Built(t, k) == t \o "#" \o ToString(k)

Registered(r) == {n \in Names : r.cal[n] # None \/ r.typ[n] # None \/ r.ali[n] # None}

(* Follow aliases; "cycle" is reported as soon as a name is met again.     *)
RECURSIVE Chase(_, _, _)
Chase(r, n, seen) ==
    IF r.ali[n] = None THEN [k |-> "name", v |-> n]
    ELSE LET m == r.ali[n]
         IN  IF m \in seen \cup {n} THEN [k |-> "err", v |-> "cycle"]
             ELSE Chase(r, m, seen \cup {n})
Resolve(r, n) == Chase(r, n, {})

Cyclic(r) == \E n \in Names : Resolve(r, n).k = "err"

Forget(r, n) == [r EXCEPT !.cal[n] = None, !.typ[n] = None, !.ali[n] = None]

Err(r, e) == [res |-> [k |-> "err", v |-> e], reg |-> r]
Ok(r)     == [res |-> [k |-> "ok", v |-> ""], reg |-> r]

(* Registering: refused if the name is taken and not forced.               *)
Register(r, o, NewReg(_)) ==
    IF ~o.force /\ o.n \in Registered(r) THEN Err(r, "collision")
    ELSE LET r2 == NewReg(Forget(r, o.n))
         IN  IF o.op = "regAlias" /\ Resolve(r2, o.n).k = "err"
             THEN Err(r, "cycle")
             ELSE Ok(r2)

(* A registry can be constructed with aliases that are already cyclic. An  *)
(* alias that leads into such a cycle without being part of one may be     *)
(* refused, as Eff does, or be registered: it then resolves to an error.   *)
RECURSIVE Reached(_, _, _)
Reached(r, n, seen) == IF n \in seen THEN seen
                       ELSE IF r.ali[n] = None THEN seen \cup {n}
                       ELSE Reached(r, r.ali[n], seen \cup {n})
Aliased(r, o) == [Forget(r, o.n) EXCEPT !.ali[o.n] = o.x]
Loose(r, o) == /\ o.op = "regAlias"
               /\ o.force \/ o.n \notin Registered(r)
               /\ Resolve(Aliased(r, o), o.n).k = "err"
               /\ o.n \notin Reached(Aliased(r, o), o.x, {})

Get(r, o) ==
    LET c == Resolve(r, o.n)
    IN  IF c.k = "err" THEN Err(r, c.v)
        ELSE IF r.cal[c.v] # None
             THEN [res |-> [k |-> "cal", v |-> r.cal[c.v]], reg |-> r]
        ELSE IF r.typ[c.v] = None THEN Err(r, "invalid")
        ELSE IF o.fails THEN Err(r, "build")
        ELSE LET b == Built(r.typ[c.v], r.nb + 1)
             IN  [res |-> [k |-> "cal", v |-> b],
                  reg |-> [r EXCEPT !.cal[c.v] = b, !.nb = @ + 1]]

Eff(r, o) ==
    CASE o.op = "get"      -> Get(r, o)
      [] o.op = "resolve"  -> [res |-> Resolve(r, o.n), reg |-> r]
      [] o.op = "names"    -> [res |-> [k |-> "names", v |-> Registered(r)], reg |-> r]
      [] o.op = "has"      -> [res |-> [k |-> "bool", v |-> o.n \in Registered(r)], reg |-> r]
      [] o.op = "reg"      -> Register(r, o, LAMBDA q : [q EXCEPT !.cal[o.n] = o.x])
      [] o.op = "regType"  -> Register(r, o, LAMBDA q : [q EXCEPT !.typ[o.n] = o.x])
      [] o.op = "regAlias" -> Register(r, o, LAMBDA q : [q EXCEPT !.ali[o.n] = o.x])
      [] o.op = "dereg"    -> Ok(Forget(r, o.n))
      [] o.op = "clear"    -> Ok([cal |-> [n \in Names |-> None],
                                  typ |-> [n \in Names |-> None],
                                  ali |-> [n \in Names |-> None],
                                  nb  |-> r.nb])

EmptyReg == [cal |-> [n \in Names |-> None], typ |-> [n \in Names |-> None],
             ali |-> [n \in Names |-> None], nb |-> 0]

Op(op, n, x, force, fails) == [op |-> op, n |-> n, x |-> x, force |-> force, fails |-> fails]

Ops ==      {Op("get", n, "", FALSE, f) : n \in Names, f \in BOOLEAN}
       \cup {Op(k, n, "", FALSE, FALSE) : k \in {"resolve", "has", "dereg"}, n \in Names}
       \cup {Op("names", "", "", FALSE, FALSE), Op("clear", "", "", FALSE, FALSE)}
       \cup {Op("reg", n, x, f, FALSE) : n \in Names, x \in Objs, f \in BOOLEAN}
       \cup {Op("regType", n, x, f, FALSE) : n \in Names, x \in Types, f \in BOOLEAN}
       \cup {Op("regAlias", n, x, f, FALSE) : n \in Names, x \in Names, f \in BOOLEAN}
=============================================================================
