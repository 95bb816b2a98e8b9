------------------------------- MODULE Depend -------------------------------
(* Which earlier blocks (long range) and which other units (short range) a    *)
(* unit depends on.                                                           *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets
CONSTANT Hash16(_)     \* first 16 bytes of the hash of a byte sequence

RECURSIVE Pick(_, _, _, _)
(* distances Dis(i), i < cnt, that do not reach before the beginning          *)
Long1(idx, cnt) == LET k == IF cnt < (idx + 1) \div 2 THEN cnt ELSE (idx + 1) \div 2
                   IN [i \in 1..k |-> idx - (2 * i - 1)]
RECURSIVE L2(_, _, _, _)
L2(idx, cnt, i, pow) ==              \* pow = 2^i; distances grow, so the first too long one ends it
  IF i >= cnt \/ pow + 1 > idx THEN <<>> ELSE <<idx - (pow + 1)>> \o L2(idx, cnt, i + 1, 2 * pow)
Long2(idx, cnt) == L2(idx, cnt, 0, 1)
Long3(idx) == Long2(idx, idx \div 10)
LongMode(idx, cnt, mode) ==
  CASE mode = 1 -> Long1(idx, cnt) [] mode = 2 -> Long2(idx, cnt) [] mode = 3 -> Long3(idx) [] OTHER -> <<>>

(* -1, +1, -3, +3, ...: those inside, until count or both sides are outside   *)
Cut(q, cnt) == SubSeq(q, 1, IF Len(q) < cnt THEN Len(q) ELSE cnt)
Pick(num, idx, d, cnt) ==
  IF cnt <= 0 \/ (d > idx /\ idx + d >= num) THEN <<>>
  ELSE LET here == (IF d <= idx THEN <<idx - d>> ELSE <<>>) \o (IF idx + d < num THEN <<idx + d>> ELSE <<>>)
       IN here \o Pick(num, idx, d + 2, cnt - Len(here))
Short1(num, idx, cnt) == Cut(Pick(num, idx, 1, cnt), cnt)
(* -1-2^0, -1+2^1, -1-2^2, -1+2^3, ...: ends at the first one outside         *)
RECURSIVE S2(_, _, _, _, _)
S2(num, idx, cnt, i, pow) ==
  IF i >= cnt THEN <<>> ELSE
  LET t == IF i % 2 = 0 THEN idx - (1 + pow) ELSE idx + (pow - 1) IN
  IF t < 0 \/ t >= num THEN <<>> ELSE <<t>> \o S2(num, idx, cnt, i + 1, 2 * pow)
Short2(num, idx, cnt) == S2(num, idx, cnt, 0, 1)
ShortMode(num, idx, cnt, mode) ==
  CASE mode = 1 -> Short1(num, idx, cnt) [] mode = 2 -> Short2(num, idx, cnt) [] OTHER -> <<>>

(* Random modes.  stream: the 16-byte digests, each the hash of the one       *)
(* before; one candidate per `step` bytes.                                    *)
StepOf(num) == IF num <= 256 THEN 1 ELSE IF num <= 65536 THEN 2 ELSE 3
Digests(cnt, step) == LET k == cnt \div (8 * step) IN IF k < 1 THEN 1 ELSE k
RECURSIVE Sum(_, _, _, _)
Sum(d, i, j, step) == IF j = step THEN 0 ELSE j * 256 + d[i + j] + Sum(d, i, j + 1, step)
Candidates(d, step) == [k \in 1..(16 \div step) |-> Sum(d, (k - 1) * step + 1, 0, step)]
RECURSIVE Stream(_, _, _)
Stream(d, step, left) ==
  IF left = 0 THEN <<>> ELSE Candidates(d, step) \o (IF left = 1 THEN <<>> ELSE Stream(Hash16(d), step, left - 1))
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* d0: first 16 bytes of the hash of the seed data                             *)
LongRandom(num, d0, idx, cnt) ==
  IF idx = 0 THEN <<>> ELSE
  LET all == Stream(d0, StepOf(num), Digests(cnt, StepOf(num)))
      use == Cut(all, cnt)
  IN Sorted({use[i] % idx : i \in 1..Len(use)})
ShortRandom(num, d0, idx, cnt) ==
  LET all == Stream(d0, StepOf(num), Digests(cnt, StepOf(num)))
      keep == SelectSeq([i \in 1..Len(all) |-> all[i] % num], LAMBDA v : v # idx)
      use == Cut(keep, cnt)
  IN Sorted({use[i] : i \in 1..Len(use)})

(* What every selection guarantees.                                           *)
WellFounded(out, idx) == \A i \in 1..Len(out) : out[i] \in 0..idx-1
Inside(out, num, idx) == \A i \in 1..Len(out) : out[i] \in 0..num-1 /\ out[i] # idx
Distinct(out) == Cardinality({out[i] : i \in 1..Len(out)}) = Len(out)
=============================================================================
