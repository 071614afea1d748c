------------------------------- MODULE LazyVal -------------------------------
(***************************************************************************)
(* Memoised attributes: objects come and go, each attribute is computed at  *)
(* first access and remembered per object.  Attributes may read others      *)
(* while being computed (Dep), and computations may raise.                  *)
(*                                                                         *)
(* State: live  objects in existence                                       *)
(*        val   remembered results, <<object, attribute>> -> number        *)
(*        nb    computations finished so far (a result is its number)      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Objs, Attrs
Dep(a) == CASE a = "Base.b" -> <<"Base.a">>
            [] a = "Sub.b"  -> <<"Base.b", "Base.n">>
            [] OTHER        -> <<>>

Empty == [live |-> {}, val |-> <<>>, nb |-> 0]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Forget(f, o) == [x \in {y \in DOMAIN f : y[1] # o} |-> f[x]]

(* Reading attribute a of o while the computations in fails raise.         *)
RECURSIVE Read(_, _, _, _), ReadAll(_, _, _, _)
ReadAll(s, o, as, fails) ==
    IF as = <<>> THEN [s |-> s, ok |-> TRUE, v |-> 0, ran |-> <<>>]
    ELSE LET h == Read(s, o, as[1], fails) IN
         IF ~h.ok THEN h
         ELSE LET t == ReadAll(h.s, o, Tail(as), fails)
              IN  [t EXCEPT !.ran = h.ran \o t.ran]
Read(s, o, a, fails) ==
    IF <<o, a>> \in DOMAIN s.val
    THEN [s |-> s, ok |-> TRUE, v |-> s.val[<<o, a>>], ran |-> <<>>]
    ELSE LET d == ReadAll(s, o, Dep(a), fails)
             ran == <<a>> \o d.ran
         IN  IF ~d.ok \/ a \in fails
             THEN [s |-> d.s, ok |-> FALSE, v |-> 0, ran |-> ran]
             ELSE LET n == d.s.nb + 1
                  IN  [s |-> [d.s EXCEPT !.val = Put(@, <<o, a>>, n), !.nb = n],
                       ok |-> TRUE, v |-> n, ran |-> ran]

Res(k, v, ran) == [k |-> k, v |-> v, ran |-> ran]

(* Effect of operation o on state s.                                       *)
Eff(s, e) ==
    CASE e.op = "new" -> [s |-> [s EXCEPT !.live = @ \cup {e.o}, !.val = Forget(@, e.o)],
                          res |-> Res("ok", 0, <<>>)]
      [] e.op = "del" -> [s |-> [s EXCEPT !.live = @ \ {e.o}, !.val = Forget(@, e.o)],
                          res |-> Res("ok", 0, <<>>)]
      [] e.op = "get" -> LET r == Read(s, e.o, e.a, e.fails)
                         IN  [s |-> r.s, res |-> Res(IF r.ok THEN "val" ELSE "raise", r.v, r.ran)]
      [] e.op = "set" -> [s |-> s, res |-> Res("refused", 0, <<>>)]
      [] e.op = "cls" -> [s |-> s, res |-> Res("ok", 0, <<>>)]
      [] e.op = "gc"  -> [s |-> s, res |-> Res("ok", 0, <<>>)]
=============================================================================
