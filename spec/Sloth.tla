------------------------------- MODULE Sloth -------------------------------
(* The Sloth permutation modulo a prime p congruent to 3 modulo 4: take the   *)
(* square root of x or of -x, whichever exists - the even root for a residue, *)
(* the odd one otherwise -, then swap it with its neighbour (1 with 2, 3 with *)
(* 4, ...).  0 stays.  Arithmetic is a parameter: TLC integers for exhaustive *)
(* models, BigNum for recorded computations.                                  *)
EXTENDS Naturals
CONSTANTS Odd(_), Inc(_), Dec(_), Neg(_, _), PowM(_, _, _), QExp(_), EExp(_), Sq(_, _), Zero, One

Euler(x, p) == PowM(x, EExp(p), p)          \* 1, p-1 or 0
Swap(y) == IF y = Zero THEN Zero ELSE IF Odd(y) THEN Inc(y) ELSE Dec(y)
Single(x, p) ==
  IF x = Zero THEN Zero ELSE
  LET res == Euler(x, p) = One
      r == PowM(IF res THEN x ELSE Neg(x, p), QExp(p), p)
  IN Swap(IF Odd(r) = res THEN Neg(r, p) ELSE r)
SingleInv(y, p) ==
  IF y = Zero THEN Zero ELSE
  LET z == Swap(y) IN IF Odd(z) THEN Neg(Sq(z, p), p) ELSE Sq(z, p)
RECURSIVE Sloth(_, _, _), SlothInv(_, _, _)
Sloth(x, p, t) == IF t = 0 THEN x ELSE Sloth(Single(x, p), p, t - 1)
SlothInv(y, p, t) == IF t = 0 THEN y ELSE SlothInv(SingleInv(y, p), p, t - 1)
=============================================================================
