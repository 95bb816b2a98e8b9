------------------------------- MODULE T_C12 -------------------------------
(* Recorded evaluations of the delay functions, their inverses, quadratic     *)
(* residue detection, byte wrappers and modular exponentiation.               *)
EXTENDS SlothBig, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok
Leg(x, p) == LET v == BPowMod(x, EExp(p), p) IN IF v = "0" THEN "0" ELSE IF v = "1" THEN "1" ELSE "-1"
Accept(e) ==
  CASE e.f = "prime" -> BIsPrime(e.p) /\ BMod(e.p, "4") = "3"
    [] e.f = "sloth" ->       \* both implementations, and back
         LET y == Sloth(e.x, e.p, e.t) IN e.rug = y /\ e.num = y /\ e.rugback = e.x /\ e.numback = e.x
    [] e.f = "inv" -> LET x == SlothInv(e.y, e.p, e.t) IN e.rug = x /\ e.num = x
    [] e.f = "table" ->       \* x = 0 .. p-1
         \A i \in 1..Len(e.rug) :
            LET y == Sloth(BN(i - 1), e.p, e.t) IN
            /\ e.rug[i] = y /\ e.num[i] = y /\ e.rugback[i] = BN(i - 1) /\ e.numback[i] = BN(i - 1)
    [] e.f = "leg" -> e.rug = Leg(e.x, e.p) /\ e.num = Leg(e.x, e.p)
    [] e.f = "legtable" -> \A i \in 1..Len(e.rug) : e.rug[i] = Leg(BN(i - 1), e.p) /\ e.num[i] = Leg(BN(i - 1), e.p)
    [] e.f = "vde" -> LET x == BFromBytes(e.x) IN
         e.y = BToBytes(Sloth(x, e.p, e.t), e.l) /\ e.back = BToBytes(x, e.l)
    [] e.f = "vdeinv" -> e.x = BToBytes(SlothInv(BFromBytes(e.y), e.p, e.t), e.l)
    [] e.f = "modpow" -> e.r = BPowMod(e.x, e.e, e.p)
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ ok' = Accept(Sessions[s].ev[l + 1])
Conforms == ok
=============================================================================
