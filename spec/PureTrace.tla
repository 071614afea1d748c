------------------------------ MODULE PureTrace ------------------------------
(***************************************************************************)
(* C10.  A calendar's queries are a function of the query alone.  What is  *)
(* known is the answer each query gave on a freshly built calendar; every  *)
(* later answer, in whatever order, after whatever failures and whatever   *)
(* other threads did meanwhile, must be that same answer.                  *)
(* Event: [obj, q, r, fresh]; obj names the calendar definition + range.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, know, bad
vars == <<i, know, bad>>
Init == i = 1 /\ know = [x \in {} |-> 0] /\ bad = <<>>
Next == /\ i <= Len(Trace)
        /\ LET ev == Trace[i]
               x == <<ev.obj, ev.q>>
           IN  IF ev.fresh /\ x \notin DOMAIN know
               THEN know' = know @@ (x :> ev.r) /\ UNCHANGED bad
               ELSE /\ bad' = IF x \in DOMAIN know /\ know[x] = ev.r THEN bad
                              ELSE Append(bad, [i |-> i, exp |-> IF x \in DOMAIN know THEN know[x] ELSE "?"])
                    /\ UNCHANGED know
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>] ELSE TLCGet(1))
=============================================================================
