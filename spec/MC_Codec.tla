------------------------------ MODULE MC_Codec ------------------------------
(* The packing loop as a state machine consuming one bit per step, and the    *)
(* unpacking loop, against the closed-form operators of Codec; plus the       *)
(* inverse laws on every bit list up to MaxBits.                              *)
EXTENDS Codec, Integers, TLC
CONSTANT MaxBits

VARIABLES inp, i, tmp, j, out, nat
vars == <<inp, i, tmp, j, out, nat>>

Init == inp = <<>> /\ i = 0 /\ tmp = 0 /\ j = 0 /\ out = <<>> /\ nat = 0

Feed(b) ==                     \* one iteration of the loops of bits_to_bytes and bits_to_usize
  /\ i < MaxBits
  /\ inp' = Append(inp, b) /\ i' = i + 1
  /\ nat' = nat + b * 2 ^ i
  /\ IF j = 7
     THEN out' = Append(out, tmp + b * 128) /\ tmp' = 0 /\ j' = 0
     ELSE out' = out /\ tmp' = tmp + b * 2 ^ j /\ j' = j + 1

Next == \E b \in {0, 1} : Feed(b)
Spec == Init /\ [][Next]_vars

Result == IF j # 0 THEN Append(out, tmp) ELSE out
PackOK == Result = BitsToBytes(inp)
NatOK  == BN(nat) = BitsNat(inp)
InverseOK ==
  /\ LET back == BytesToBits(BitsToBytes(inp)) IN
       /\ SubSeq(back, 1, Len(inp)) = inp
       /\ \A k \in Len(inp) + 1..Len(back) : back[k] = 0
  /\ NatBits(BitsNat(inp), Len(inp)) = inp
  /\ BitsToBytes(BytesToBits(Result)) = Result
=============================================================================
