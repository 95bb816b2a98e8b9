------------------------------- MODULE Units -------------------------------
(* Data units: byte sequences cut, padded by one zero byte, joined, xored.    *)
EXTENDS Naturals, Integers, Sequences, Bitwise

RECURSIVE JoinFrom(_, _, _)
(* concatenation of u[a] .. u[b], balanced so that long lists stay cheap      *)
JoinFrom(u, a, b) ==
  IF a > b THEN <<>> ELSE IF a = b THEN u[a]
  ELSE LET m == (a + b) \div 2 IN JoinFrom(u, a, m) \o JoinFrom(u, m + 1, b)
Join(u) == JoinFrom(u, 1, Len(u))
(* a whole number of units of n bytes                                         *)
Split(d, n) == [k \in 1..(Len(d) \div n) |-> SubSeq(d, (k - 1) * n + 1, k * n)]
(* the first `units` units of n bytes, one zero byte added to each            *)
Pad(d, units, n) ==
  [i \in 1..(units * (n + 1)) |-> IF i % (n + 1) = 0 THEN 0 ELSE d[((i - 1) \div (n + 1)) * n + ((i - 1) % (n + 1)) + 1]]
(* the first n bytes of each of the first `units` chunks of w >= n bytes      *)
Strip(d, units, n, w) == [i \in 1..(units * n) |-> d[((i - 1) \div n) * w + ((i - 1) % n) + 1]]
Max(a, b) == IF a > b THEN a ELSE b
At(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
XorSeq(a, b) == [i \in 1..Max(Len(a), Len(b)) |-> At(a, i) ^^ At(b, i)]
Range(d, off, n) == SubSeq(d, off + 1, off + n)
=============================================================================
