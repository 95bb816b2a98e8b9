----------------------------- MODULE BigNumLaws -----------------------------
(* Checks the Java evaluation of BigNum and Hashes: against TLC's own         *)
(* integers on small values, ring laws on large ones, published test vectors  *)
(* for the hashes.                                                            *)
EXTENDS BigNum, Hashes, Integers, TLC

CONSTANT Max
VARIABLES a, b
Init == a \in 0..Max /\ b \in 0..Max
Next == UNCHANGED <<a, b>>

P == "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"
X == BAdd(BMul(BN(a), BSub(P, BN(7))), BN(b))
Y == BSub(P, BAdd(BMul(BN(b), BN(b)), BN(a)))
Z == BMul(BN(a+b+1), BPow2(200))

Small ==
  /\ BInt(BAdd(BN(a), BN(b))) = a + b
  /\ BInt(BMul(BN(a), BN(b))) = a * b
  /\ a >= b => BInt(BSub(BN(a), BN(b))) = a - b
  /\ b > 0 => /\ BInt(BDiv(BN(a), BN(b))) = a \div b
              /\ BInt(BMod(BN(a), BN(b))) = a % b
              /\ BInt(BSubMod(BN(a), BN(2*a), BN(b))) = (-a) % b
              /\ BInt(BAddMod(BN(a), BN(a), BN(b))) = (2*a) % b
              /\ BInt(BMulMod(BN(a), BN(a), BN(b))) = (a*a) % b
              /\ BInt(BPowMod(BN(a), BN(3), BN(b))) = (a*a*a) % b
  /\ BLt(BN(a), BN(b)) = (a < b)
  /\ BBits(BN(a), 12) = [i \in 1..12 |-> (a \div 2^(i-1)) % 2]
  /\ \A i \in 0..12 : BBit(BN(a), i) = (a \div 2^i) % 2
  /\ a < 256 => BIsPrime(BN(a)) = (a > 1 /\ \A d \in 2..(a-1) : a % d # 0)
  /\ HexToSeq(BToBytes(BN(a + 256*b), 4)) = <<a % 256, (b + a \div 256) % 256, (b + a \div 256) \div 256, 0>>
  /\ BFromBytes(SeqToHex(<<a % 256, b % 256, 0>>)) = BN((a % 256) + 256 * (b % 256))
  /\ LET bs == <<a, b, (a * b) % 256>> IN
     \A lo \in 0..9 : HexBits(SeqToHex(bs), lo, 17) =
       [i \in 1..17 |-> LET j == lo + i - 1 IN IF j >= 24 THEN 0 ELSE (bs[j \div 8 + 1] \div 2 ^ (j % 8)) % 2]
Large ==
  /\ BMul(X, BAdd(Y, Z)) = BAdd(BMul(X, Y), BMul(X, Z))
  /\ BSub(BAdd(X, Y), Y) = X
  /\ BAdd(BMul(BDiv(BMul(X, Y), P), P), BMod(BMul(X, Y), P)) = BMul(X, Y)
  /\ BMulMod(X, Y, P) = BMod(BMul(X, Y), P)
  /\ BPowMod(X, BN(3), P) = BMod(BMul(X, BMul(X, X)), P)
  /\ BAddMod(BSubMod(X, Y, P), Y, P) = BMod(X, P)
  /\ BFromBytes(BToBytes(X, 40)) = X
  /\ BLt(X, Y) = ~(BLt(Y, X) \/ X = Y)
Vectors ==
  /\ Sha256("") = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
  /\ Sha256("616263") = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
  /\ Md5("616263") = "900150983cd24fb0d6963f7d28e17f72"
  /\ Blake3("") = "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"
  /\ Blake3("616263") = "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85"
Laws == Small /\ Large /\ Vectors
=============================================================================
