----------------------------- MODULE SealSmall -----------------------------
(* Sealing over the prime field of 7 elements with a small keyed hash: the    *)
(* setting of the exhaustive models.  c is the configuration.                 *)
EXTENDS Integers, Sequences, FiniteSets
SI == INSTANCE SlothInt
Zero16(d) == d
DD == INSTANCE Depend WITH Hash16 <- Zero16
P == 7
RECURSIVE Weigh(_, _)
Weigh(q, i) == IF i > Len(q) THEN 0 ELSE (i + 1) * (q[i] + 1) * (q[i] + 2) + Weigh(q, i + 1)
HashS(q, k) == (Weigh(q, 1) + k * Len(q) + k) % P
Mod(a) == a % P
EncS(u, d, c) == SI!Sloth(Mod(u + HashS(d, c.k)), P, c.t)
DecS(u, d, c) == Mod(SI!SlothInv(u, P, c.t) - HashS(d, c.k))
IdentS(b, c) == HashS(b, c.k + 1)
RandomSet(seed, m, cnt) == DD!Sorted({(seed * (j + 1) + j) % m : j \in 0..cnt-1})
LongsS(b, prev, c) ==
  IF b = 0 THEN <<>>
  ELSE IF c.ml = 0 THEN RandomSet(prev[1], b, IF c.cl = 0 THEN b \div 10 + 1 ELSE c.cl)
  ELSE DD!LongMode(b, c.cl, c.ml)
ShortsS(n, i, before, c) ==
  IF c.ms = 0 THEN SelectSeq(RandomSet(IF before = <<>> THEN c.k ELSE before[1], n, c.cs), LAMBDA v : v # i)
  ELSE DD!ShortMode(n, i, c.cs, c.ms)
CatS(q) == q
=============================================================================
