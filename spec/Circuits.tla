------------------------------ MODULE Circuits ------------------------------
(* What the constraint systems of the space proof claim, as relations between *)
(* committed values and public values.  Field elements and their operations   *)
(* are parameters: BigNum for recorded assignments, TLC integers modulo a     *)
(* small prime for exhaustive checking.                                       *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS Add(_, _), Mul(_, _), Zero, One
M == INSTANCE MiMC WITH Add <- Add, Mul <- Mul

RECURSIVE Twice(_, _)
Twice(x, k) == IF k = 0 THEN x ELSE Twice(Add(x, x), k - 1)
(* Sum of bit_i * 2^i over the first d bits, in the field.                    *)
Weighted(bits, d) ==
  FoldLeft(LAMBDA a, b : IF b = One THEN <<Add(a[1], a[2]), Add(a[2], a[2])>>
                         ELSE <<a[1], Add(a[2], a[2])>>, <<Zero, One>>, SubSeq(bits, 1, d))[1]
Boolean(bits) == \A i \in 1..Len(bits) : bits[i] = Zero \/ bits[i] = One
(* base^exponent, exponent given by bits, least significant first              *)
PowBits(g, bits) ==
  FoldLeft(LAMBDA a, b : <<IF b = One THEN Mul(a[1], a[2]) ELSE a[1], Mul(a[2], a[2])>>, <<One, g>>, bits)[1]

DFRel(e, sec, pub, c) == Len(pub) = 1 /\ pub[1] = M!DF(e, sec[1], sec[2], c)
HashRel(e, sec, pub, c) == Len(pub) = 1 /\ pub[1] = M!Multi(e, Tail(sec), sec[1], c, Len(c))
EqualRel(bits, pub, d) == /\ Len(pub) = 2 /\ Boolean(bits)
                          /\ pub[1] = Weighted(bits, d) /\ pub[2] = Weighted(bits, Len(bits))
PowRel(sec, pub) == Len(pub) = 1 /\ Boolean(Tail(sec)) /\ pub[1] = PowBits(sec[1], Tail(sec))
(* pub = key, m, y_1 .. y_r, hash; Low(y, v): v is the low bits of an expansion of y *)
SpaceRel(xs, pub, dfc, hc, Low(_, _)) ==
  LET r == Len(xs) IN
  /\ Len(pub) = r + 3
  /\ \A i \in 1..r : Low(M!DF(5, Add(pub[1], xs[i]), pub[2], dfc), pub[2 + i])
  /\ pub[r + 3] = M!Multi(5, xs, pub[1], hc, Len(hc))
=============================================================================
