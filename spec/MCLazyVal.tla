------------------------------ MODULE MCLazyVal ------------------------------
(* Memoised attributes as a state machine: exhaustive check, and (with LOG) *)
(* generator of every transition for replay into the code.                  *)
EXTENDS LazyVal, Json, IOUtils

CONSTANT MaxRuns
VARIABLES st, last
vars == <<st, last>>

Op(op, o, a, fails) == [op |-> op, o |-> o, a |-> a, fails |-> fails]
Possible(s) ==
         {Op("new", o, "", {}) : o \in Objs \ s.live}
    \cup {Op("del", o, "", {}) : o \in s.live}
    \cup {Op("get", o, a, f) : o \in s.live, a \in Attrs, f \in {{}} \cup {{x} : x \in Attrs}}
    \cup {Op("set", o, a, {}) : o \in s.live, a \in Attrs}

Init == st = Empty /\ last = [o |-> Op("", "", "", {}), res |-> Res("ok", 0, <<>>)]
Next == \E o \in Possible(st) : LET e == Eff(st, o) IN st' = e.s /\ last' = [o |-> o, res |-> e.res]
Spec == Init /\ [][Next]_vars

Bound == st.nb <= MaxRuns
View == st
AsSeq(s) == [live |-> s.live, nb |-> s.nb, val |-> {<<k[1], k[2], s.val[k]>> : k \in DOMAIN s.val}]
Log == \/ "LOG" \notin DOMAIN IOEnv
       \/ PrintT("T " \o ToJson([f |-> AsSeq(st), o |-> last'.o, r |-> last'.res, t |-> AsSeq(st')]))

-----------------------------------------------------------------------------
Held(s, o, a) == <<o, a>> \in DOMAIN s.val
(* Only live objects have results, and no two share one.                   *)
Owned  == \A k \in DOMAIN st.val : k[1] \in st.live /\ k[2] \in Attrs
NoLeak == \A k, m \in DOMAIN st.val : st.val[k] = st.val[m] => k = m
(* Once computed, the same answer ever after.                              *)
Once == [][\A k \in DOMAIN st.val : \/ (k \in DOMAIN st'.val /\ st'.val[k] = st.val[k])
                                    \/ (last'.o.op = "del" /\ last'.o.o = k[1])]_vars
Hit  == [][last'.o.op = "get" /\ Held(st, last'.o.o, last'.o.a) =>
             last'.res = Res("val", st.val[<<last'.o.o, last'.o.a>>], <<>>)]_vars
(* A raising computation leaves that attribute uncomputed.                 *)
Retry == [][last'.res.k = "raise" => ~Held(st', last'.o.o, last'.o.a)]_vars
(* Each computation runs at most once in one access, and only for lack of  *)
(* a result; other objects are not touched.                                *)
Frugal == [][last'.o.op = "get" =>
               /\ \A i, j \in DOMAIN last'.res.ran : last'.res.ran[i] = last'.res.ran[j] => i = j
               /\ \A i \in DOMAIN last'.res.ran : ~Held(st, last'.o.o, last'.res.ran[i])
               /\ \A k \in DOMAIN st'.val : k[1] = last'.o.o \/ (k \in DOMAIN st.val)]_vars
Refused == [][last'.o.op = "set" => last'.res.k = "refused" /\ st' = st]_vars
=============================================================================
