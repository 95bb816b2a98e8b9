----------------------------- MODULE Challenges -----------------------------
(* What a verifier may draw, and what a long series of draws must show.  The  *)
(* statistical conditions fail for an independent uniform source with         *)
(* probability below 2^-60 at the sizes the drivers use.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Bitwise, BigNum

(* space: n numbers of `bits` bits, as BigNum                                 *)
SpaceDraw(out, n, bits) == Len(out) = n /\ \A i \in 1..n : BLt(out[i], BPow2(bits))
(* storage: n distinct indices in [lo, hi), ascending                         *)
StorageDraw(out, n, lo, hi) ==
  /\ Len(out) = n
  /\ \A i \in 1..n : out[i] >= lo /\ out[i] < hi
  /\ \A i \in 1..n-1 : out[i] < out[i + 1]
(* rows: a sequence of rows of equally many bits.  Every two columns (of the   *)
(* same or of consecutive rows) take all four combinations, and no column     *)
(* leans.                                                                     *)
Combos(rows, a, b, off) == {<<rows[t][a], rows[t + off][b]>> : t \in 1..Len(rows) - off}
Balanced(rows, a) == LET k == Cardinality({t \in 1..Len(rows) : rows[t][a] = 1})
                     IN 4 * k > Len(rows) /\ 4 * k < 3 * Len(rows)
IndependentBits(rows) ==
  LET w == Len(rows[1]) IN
  /\ \A t \in 1..Len(rows) : Len(rows[t]) = w
  /\ \A a \in 1..w : Balanced(rows, a)
  /\ \A a, b \in 1..w : (a < b => Cardinality(Combos(rows, a, b, 0)) = 4)
                        /\ Cardinality(Combos(rows, a, b, 1)) = 4
(* draws: every k-subset of [lo, hi) occurs                                    *)
RECURSIVE Choose(_, _)
Choose(m, k) == IF k = 0 THEN 1 ELSE (Choose(m - 1, k - 1) * m) \div k
AllSubsets(draws, k, lo, hi) == Cardinality({draws[t] : t \in 1..Len(draws)}) = Choose(hi - lo, k)
(* every ordered pair of consecutive single draws occurs                       *)
AllPairs(draws, lo, hi) == Cardinality({<<draws[t], draws[t + 1]>> : t \in 1..Len(draws) - 1}) = (hi - lo) * (hi - lo)
(* every position occurs, and none always (when some are left out)              *)
Covered(draws, n, lo, hi) ==
  /\ UNION {{draws[t][i] : i \in 1..n} : t \in 1..Len(draws)} = lo..hi-1
  /\ n < hi - lo => \A v \in lo..hi-1 : \E t \in 1..Len(draws) : \A i \in 1..n : draws[t][i] # v
(* no challenge is a fixed distance or a fixed mask away from another of the    *)
(* same or of the previous draw                                               *)
Unrelated(draws, n, bits) ==
  LET at(i, j, off, Op(_, _)) == {Op(draws[t][i], draws[t + off][j]) : t \in 1..Len(draws) - off}
      minus(a, b) == (a - b) % (2 ^ bits)
      plus(a, b) == (a + b) % (2 ^ bits)
      mask(a, b) == a ^^ b
  IN \A i, j \in 1..n : \A off \in {0, 1} : (off = 1 \/ i < j) =>
       /\ Cardinality(at(i, j, off, minus)) > 1
       /\ Cardinality(at(i, j, off, plus)) > 1
       /\ Cardinality(at(i, j, off, mask)) > 1
Fresh(draws) == Cardinality({draws[t] : t \in 1..Len(draws)}) = Len(draws)
(* spread of single draws over four equal quarters of the range               *)
Quarters(draws, lo, hi) ==
  \A q \in 0..3 : LET c == Cardinality({t \in 1..Len(draws) : ((draws[t][1] - lo) \div ((hi - lo) \div 4)) = q})
                  IN 8 * c > Len(draws)
=============================================================================
