------------------------------- MODULE Copies -------------------------------
(***************************************************************************)
(* C25.  Calendars as objects: they are built, copied (shallowly, deeply,  *)
(* or by being written out and read back), asked, and given up, after      *)
(* which another calendar may take their place in memory.  A calendar's    *)
(* answer depends on its content alone, and a copy has the content of its  *)
(* original.                                                               *)
(*                                                                         *)
(* Objects keep what they last answered.  CacheIn says where:              *)
(*   "object"  with the object; a copy takes it along                      *)
(*   "table"   in a table by the object's place, emptied when it is given  *)
(*             up                                                          *)
(*   "leak"    in such a table that is never emptied                       *)
(*   "name"    in a table by the kind of calendar                          *)
(* The first two are faithful, for the others TLC finds a wrong answer.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Places, Kinds, Ranges, Instants, CacheIn

Contents == Kinds \X Ranges
Free == <<>>
Value(c, t) == <<c, t>>

VARIABLES obj, own, table, last
vars == <<obj, own, table, last>>
Empty == <<>>
Keys == IF CacheIn = "name" THEN Kinds ELSE Places

Init == /\ obj = [p \in Places |-> Free] /\ own = [p \in Places |-> Empty]
        /\ table = [k \in Keys |-> Empty] /\ last = <<>>

Key(p) == IF CacheIn = "name" THEN obj[p][1] ELSE p
Cache(p) == IF CacheIn = "object" THEN own[p] ELSE table[Key(p)]

Build(p, c) == /\ obj[p] = Free
               /\ obj' = [obj EXCEPT ![p] = c] /\ own' = [own EXCEPT ![p] = Empty]
               /\ last' = <<>> /\ UNCHANGED table
Copy(p, q) == /\ obj[p] # Free /\ obj[q] = Free
              /\ obj' = [obj EXCEPT ![q] = obj[p]] /\ own' = [own EXCEPT ![q] = own[p]]
              /\ last' = <<>> /\ UNCHANGED table
Drop(p) == /\ obj[p] # Free
           /\ obj' = [obj EXCEPT ![p] = Free] /\ own' = [own EXCEPT ![p] = Empty]
           /\ table' = IF CacheIn = "table" THEN [table EXCEPT ![p] = Empty] ELSE table
           /\ last' = <<>>
Ask(p, t) == /\ obj[p] # Free
             /\ LET hit == Cache(p) # Empty /\ Cache(p)[1] = t
                    v == IF hit THEN Cache(p)[2] ELSE Value(obj[p], t)
                IN  /\ last' = <<obj[p], t, v>>
                    /\ own' = IF CacheIn = "object" THEN [own EXCEPT ![p] = <<t, v>>] ELSE own
                    /\ table' = IF CacheIn = "object" THEN table ELSE [table EXCEPT ![Key(p)] = <<t, v>>]
             /\ UNCHANGED obj
Next == \E p \in Places :
          \/ \E c \in Contents : Build(p, c)
          \/ \E q \in Places : Copy(p, q)
          \/ Drop(p)
          \/ \E t \in Instants : Ask(p, t)
Spec == Init /\ [][Next]_vars

Faithful == last = <<>> \/ last[3] = Value(last[1], last[2])
=============================================================================
