------------------------------- MODULE BigNum -------------------------------
(* Unbounded natural numbers for TLC, whose own integers have 32 bits.        *)
(* A natural is its canonical lower-case hexadecimal string ("0", "1f", ...), *)
(* so equality of numbers is equality of strings.  A byte string is a hex     *)
(* string with two digits per byte, first byte first.  The operators are      *)
(* evaluated by java/BigNum.java; BigNumLaws.tla checks that evaluation.      *)
EXTENDS Naturals, Sequences

BN(i) == CHOOSE s \in STRING : TRUE           \* the number i
BInt(a) == CHOOSE i \in Nat : BN(i) = a       \* back, when it is below 2^31
BAdd(a, b) == BN(BInt(a) + BInt(b))
BSub(a, b) == BN(BInt(a) - BInt(b))           \* only for a >= b
BMul(a, b) == BN(BInt(a) * BInt(b))
BDiv(a, b) == BN(BInt(a) \div BInt(b))
BMod(a, b) == BN(BInt(a) % BInt(b))
BAddMod(a, b, m) == BMod(BAdd(a, b), m)
BSubMod(a, b, m) == BN((BInt(a) - BInt(b)) % BInt(m))
BMulMod(a, b, m) == BMod(BMul(a, b), m)
BPowMod(a, e, m) == BN((BInt(a) ^ BInt(e)) % BInt(m))
BPow2(k) == BN(2 ^ k)                         \* k an ordinary integer
BLt(a, b) == BInt(a) < BInt(b)
BBit(a, i) == (BInt(a) \div 2 ^ i) % 2
BBits(a, k) == [i \in 1..k |-> BBit(a, i - 1)]
BFromBytes(h) == CHOOSE s \in STRING : TRUE   \* little-endian value of a byte string
BToBytes(a, len) == CHOOSE s \in STRING : TRUE \* little-endian, zero-padded to len, never cut
BIsPrime(a) == BInt(a) > 1 /\ \A d \in 2..BInt(a)-1 : BInt(a) % d # 0
HexToSeq(h) == CHOOSE s \in Seq(0..255) : TRUE
\* k bits of a byte string, least significant first, from bit lo on (0 beyond its end)
HexBits(h, lo, k) == [i \in 1..k |-> LET j == lo + i - 1 IN
  IF j \div 8 >= Len(HexToSeq(h)) THEN 0 ELSE (HexToSeq(h)[j \div 8 + 1] \div 2 ^ (j % 8)) % 2]
SeqToHex(s) == CHOOSE h \in STRING : HexToSeq(h) = s
=============================================================================
