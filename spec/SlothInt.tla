------------------------------ MODULE SlothInt ------------------------------
(* Sloth over TLC integers (p below 46341).                                   *)
EXTENDS Integers
Odd(x) == x % 2 = 1
Inc(x) == x + 1
Dec(x) == x - 1
Neg(x, p) == (p - x) % p
RECURSIVE PowM(_, _, _)
PowM(b, e, p) == IF e = 0 THEN 1 % p ELSE
  LET h == PowM(b, e \div 2, p) IN IF e % 2 = 0 THEN (h * h) % p ELSE (((h * h) % p) * b) % p
QExp(p) == (p + 1) \div 4
EExp(p) == (p - 1) \div 2
Sq(z, p) == (z * z) % p
INSTANCE Sloth WITH Zero <- 0, One <- 1
IsPrime(p) == p > 1 /\ \A d \in 2..p : (d * d <= p) => p % d # 0
=============================================================================
