----------------------------- MODULE ShapeTrace -----------------------------
(* Checks recorded kinds of answers [q, s] against Shapes.                  *)
EXTENDS Shapes, Integers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Init == i = 1 /\ bad = <<>>
Next == /\ i <= Len(Trace)
        /\ LET ev == Trace[i] IN
           bad' = IF ev.s = "error" \/ ev.s \in ShapeOf[ev.q] THEN bad
                  ELSE Append(bad, [i |-> i, exp |-> ShapeOf[ev.q]])
        /\ i' = i + 1
        /\ TLCSet(1, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Next]_vars
Post == JsonSerialize(IOEnv.OUT, IF Trace = <<>> THEN [n |-> 0, bad |-> <<>>] ELSE TLCGet(1))
=============================================================================
