------------------------------- MODULE Codec -------------------------------
(* Bit, byte and integer conversions of the space prover: everything is       *)
(* little-endian.  A bit list is a sequence over {0,1}, a byte list one over  *)
(* 0..255, a machine integer a BigNum.                                        *)
EXTENDS Naturals, Sequences, BigNum, SequencesExt

BytesToBits(bs) == [k \in 1..8 * Len(bs) |-> (bs[(k - 1) \div 8 + 1] \div 2 ^ ((k - 1) % 8)) % 2]

RECURSIVE Weigh(_, _, _)
Weigh(bits, from, i) ==       \* value of bits[from], bits[from+1], ... up to eight of them
  IF i = 8 \/ from + i > Len(bits) THEN 0
  ELSE bits[from + i] * 2 ^ i + Weigh(bits, from, i + 1)

BitsToBytes(bits) == [j \in 1..((Len(bits) + 7) \div 8) |-> Weigh(bits, 8 * (j - 1) + 1, 0)]

BitsNat(bits) ==              \* the number denoted by a bit list
  FoldRight(LAMBDA b, acc : BAdd(BAdd(acc, acc), BN(b)), bits, BN(0))

NatBits(x, n) == BBits(x, n)  \* the n low bits of a number

LowBits(x, n) == BInt(BMod(x, BPow2(n)))   \* the same as an ordinary integer (n < 31)
=============================================================================
