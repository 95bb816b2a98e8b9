-------------------------------- MODULE MiMC --------------------------------
(* MiMC delay function and hash over a prime field given by its two           *)
(* operations.  Instantiated with TLC integers modulo a small prime for model *)
(* checking and with BigNum for checking recorded computations.               *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS Add(_, _), Mul(_, _)

Pow3(t) == Mul(Mul(t, t), t)
Pow5(t) == LET t2 == Mul(t, t) IN Mul(Mul(t2, t2), t)
Pow7(t) == LET t2 == Mul(t, t) IN Mul(Mul(Mul(t2, t2), t2), t)
Power(e, t) == CASE e = 3 -> Pow3(t) [] e = 5 -> Pow5(t) [] e = 7 -> Pow7(t)

(* One Feistel round on <<left, right>>.                                       *)
Round(e, lr, c) == <<Add(lr[2], Power(e, Add(lr[1], c))), lr[1]>>
(* The delay function: all rounds, left half.                                  *)
DF(e, xl, xr, cs) == FoldLeft(LAMBDA lr, c : Round(e, lr, c), <<xl, xr>>, cs)[1]

(* One keyed hash: round 0 is (x + key)^e, round i is (h + key + c_i)^e.       *)
Hash(e, x, key, cs, rounds) ==
  LET first == Power(e, Add(x, key))
      last == FoldLeft(LAMBDA h, c : Power(e, Add(Add(h, key), c)), first, SubSeq(cs, 2, rounds))
  IN  Add(last, key)
(* Chaining of several inputs from the key.                                    *)
Multi(e, xs, key, cs, rounds) ==
  FoldLeft(LAMBDA r, x : Add(Add(r, x), Hash(e, x, r, cs, rounds)), key, xs)
=============================================================================
