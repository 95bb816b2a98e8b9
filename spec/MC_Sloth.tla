------------------------------ MODULE MC_Sloth ------------------------------
(* Every prime p = 3 mod 4 up to MaxP, every starting value, MaxT rounds.     *)
EXTENDS SlothInt, TLC, FiniteSets
CONSTANTS MaxP, MaxT
VARIABLES p, x0, x, t
vars == <<p, x0, x, t>>
Primes == {q \in 3..MaxP : q % 4 = 3 /\ IsPrime(q)}
Init == /\ p \in Primes /\ x0 \in 0..p-1 /\ x = x0 /\ t = 0
Next == t < MaxT /\ x' = Single(x, p) /\ t' = t + 1 /\ UNCHANGED <<p, x0>>
InRange == x \in 0..p-1
Inverse == SlothInv(x, p, t) = x0
Forward == Single(SingleInv(x, p), p) = x
(* the Jacobi algorithm of the implementation agrees with Euler's criterion   *)
RECURSIVE Jacobi(_, _)
Strip(a) == LET RECURSIVE S(_, _)
                S(b, e) == IF b % 2 = 0 THEN S(b \div 2, e + 1) ELSE <<b, e>>
            IN S(a, 0)
Jacobi(a, n) ==
  IF a = 0 THEN 0 ELSE IF a = 1 THEN 1 ELSE
  LET be == Strip(a)
      s1 == IF be[2] % 2 = 1 /\ n % 8 \in {3, 5} THEN -1 ELSE 1
      s2 == IF n % 4 = 3 /\ be[1] % 4 = 3 THEN -s1 ELSE s1
  IN IF be[1] = 1 THEN s2 ELSE s2 * Jacobi(n % be[1], be[1])
JacobiOK == t = 0 => LET j == Jacobi(x, p) IN Euler(x, p) = (IF j = -1 THEN p - 1 ELSE j)
Permutation == (x0 = 0 /\ t = 0) => Cardinality({Single(y, p) : y \in 0..p-1}) = p
=============================================================================
