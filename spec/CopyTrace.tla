------------------------------ MODULE CopyTrace ------------------------------
(***************************************************************************)
(* C25.  Histories of real calendars checked against Copies: which object  *)
(* has which content follows from how it was built or copied; what the     *)
(* content answers is learnt from a calendar built and asked just once.    *)
(* Events: [e, o, c, q, r]                                                 *)
(*   "learn"  content c answers r to q                                     *)
(*   "build"  object o has content c                                       *)
(*   "copy"   object o is a copy of object c                               *)
(*   "drop"   object o is gone                                             *)
(*   "ask"    object o answered r to q                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, content, know, bad
vars == <<i, content, know, bad>>
Init == i = 1 /\ content = [o \in {} |-> ""] /\ know = [x \in {} |-> ""] /\ bad = <<>>

Without(f, o) == [x \in DOMAIN f \ {o} |-> f[x]]
Step(ev) ==
    CASE ev.e = "learn" -> /\ know' = (<<ev.c, ev.q>> :> ev.r) @@ know
                           /\ UNCHANGED <<content, bad>>
      [] ev.e = "build" -> /\ content' = (ev.o :> ev.c) @@ content
                           /\ UNCHANGED <<know, bad>>
      [] ev.e = "copy"  -> /\ content' = (ev.o :> content[ev.c]) @@ content
                           /\ bad' = IF ev.r = "ok" THEN bad
                                     ELSE Append(bad, [i |-> i, exp |-> "a copy"])
                           /\ UNCHANGED know
      [] ev.e = "drop"  -> /\ content' = Without(content, ev.o)
                           /\ UNCHANGED <<know, bad>>
      [] ev.e = "ask"   -> /\ LET exp == know[<<content[ev.o], ev.q>>]
                              IN  bad' = IF exp = ev.r THEN bad
                                         ELSE Append(bad, [i |-> i, exp |-> exp])
                           /\ UNCHANGED <<content, know>>
Next == /\ i <= Len(Trace)
        /\ Step(Trace[i])
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>] ELSE TLCGet(1))
=============================================================================
