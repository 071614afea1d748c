------------------------------ MODULE MCBlocks -------------------------------
(* The promises of the reusable holidays, one state per year.              *)
EXTENDS Blocks
CONSTANTS First, Last
VARIABLE y
Init == y \in {First + 8 * k : k \in 0 .. (Last - First) \div 8}
Next == y < Last /\ y % 8 # (First + 7) % 8 /\ y' = y + 1
Spec == Init /\ [][Next]_y
Kept == Promise(y)
=============================================================================
