------------------------------ MODULE SlothBig ------------------------------
(* Sloth over BigNum.                                                         *)
EXTENDS BigNum
Odd(x) == BBit(x, 0) = 1
Inc(x) == BAdd(x, "1")
Dec(x) == BSub(x, "1")
Neg(x, p) == BSubMod("0", x, p)
PowM(b, e, p) == BPowMod(b, e, p)
QExp(p) == BDiv(BAdd(p, "1"), "4")
EExp(p) == BDiv(BSub(p, "1"), "2")
Sq(z, p) == BMulMod(z, z, p)
INSTANCE Sloth WITH Zero <- "0", One <- "1"
=============================================================================
