--------------------------- MODULE CalendarObject ---------------------------
(***************************************************************************)
(* C10.  One calendar object queried by several threads.  The only shared  *)
(* mutable state is the one-entry cache of the minute-to-session query: a  *)
(* key and a value.  Each query by thread p for instant t reads the cache, *)
(* possibly computes F(t) and stores the entry, and returns.               *)
(*                                                                         *)
(* ReadOnce / WriteOnce say whether key and value are read / written in    *)
(* one step.  With both TRUE every answer is F(t) whatever the             *)
(* interleaving (Pure); with either FALSE TLC finds a wrong answer.        *)
(* A failing query (no such session) raises without touching the cache.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Instants, Fails, ReadOnce, WriteOnce, MaxQueries

F(t) == t * 10                 \* any function that tells instants apart
NoKey == -1

VARIABLES key, val, pc, arg, k, v, answers, n
vars == <<key, val, pc, arg, k, v, answers, n>>

Init == /\ key = NoKey /\ val = 0 /\ n = 0
        /\ pc = [p \in Threads |-> "idle"]
        /\ arg = [p \in Threads |-> NoKey]
        /\ k = [p \in Threads |-> NoKey]
        /\ v = [p \in Threads |-> 0]
        /\ answers = {}

Begin(p, t) == /\ pc[p] = "idle" /\ n < MaxQueries
               /\ n' = n + 1
               /\ arg' = [arg EXCEPT ![p] = t]
               /\ pc' = [pc EXCEPT ![p] = "read"]
               /\ UNCHANGED <<key, val, k, v, answers>>

ReadKey(p) == /\ pc[p] = "read"
              /\ k' = [k EXCEPT ![p] = key]
              /\ v' = [v EXCEPT ![p] = IF ReadOnce THEN val ELSE @]
              /\ pc' = [pc EXCEPT ![p] = IF key # arg[p] THEN "compute"
                                         ELSE IF ReadOnce THEN "return" ELSE "readval"]
              /\ UNCHANGED <<key, val, arg, answers, n>>
ReadVal(p) == /\ pc[p] = "readval"
              /\ v' = [v EXCEPT ![p] = val]
              /\ pc' = [pc EXCEPT ![p] = "return"]
              /\ UNCHANGED <<key, val, arg, k, answers, n>>
Compute(p) == /\ pc[p] = "compute"
              /\ v' = [v EXCEPT ![p] = F(arg[p])]
              /\ pc' = [pc EXCEPT ![p] = IF arg[p] \in Fails THEN "raise" ELSE "store"]
              /\ UNCHANGED <<key, val, arg, k, answers, n>>
Store(p) == /\ pc[p] = "store"
            /\ key' = arg[p]
            /\ val' = IF WriteOnce THEN v[p] ELSE val
            /\ pc' = [pc EXCEPT ![p] = IF WriteOnce THEN "return" ELSE "storeval"]
            /\ UNCHANGED <<arg, k, v, answers, n>>
StoreVal(p) == /\ pc[p] = "storeval"
               /\ val' = v[p]
               /\ pc' = [pc EXCEPT ![p] = "return"]
               /\ UNCHANGED <<key, arg, k, v, answers, n>>
Return(p) == /\ pc[p] = "return"
             /\ answers' = answers \cup {<<arg[p], "ok", v[p]>>}
             /\ pc' = [pc EXCEPT ![p] = "idle"]
             /\ UNCHANGED <<key, val, arg, k, v, n>>
Raise(p) == /\ pc[p] = "raise"
            /\ answers' = answers \cup {<<arg[p], "err", 0>>}
            /\ pc' = [pc EXCEPT ![p] = "idle"]
            /\ UNCHANGED <<key, val, arg, k, v, n>>

Next == \E p \in Threads :
          \/ \E t \in Instants : Begin(p, t)
          \/ ReadKey(p) \/ ReadVal(p) \/ Compute(p) \/ Store(p) \/ StoreVal(p) \/ Return(p) \/ Raise(p)
Spec == Init /\ [][Next]_vars

Pure == \A a \in answers : a = IF a[1] \in Fails THEN <<a[1], "err", 0>> ELSE <<a[1], "ok", F(a[1])>>
CacheSound == key = NoKey \/ val = F(key)
=============================================================================
