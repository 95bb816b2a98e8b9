------------------------------ MODULE MC_MiMC ------------------------------
(* The delay function round by round, and the chained hash input by input,    *)
(* over every field of a set of small primes.  Each round can be undone from  *)
(* its result and the constant, so the delay function loses nothing of the    *)
(* pair; the hash of one input is a permutation for every key when the        *)
(* exponent is invertible; and both machines end at the values MiMC.tla gives.*)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Primes, MaxRounds, MaxInputs
VARIABLES p, e, cs, x, y, lr, n,      \* delay function of (x, y) after n rounds
          key, ins, acc               \* chain over ins
vars == <<p, e, cs, x, y, lr, n, key, ins, acc>>
A(a, b) == (a + b) % p
M(a, b) == (a * b) % p
F == INSTANCE MiMC WITH Add <- A, Mul <- M
Init == /\ p \in Primes /\ e \in {3, 5, 7} /\ x \in 0..p-1 /\ y \in 0..p-1 /\ lr = <<x, y>> /\ n = 0 /\ cs = <<>>
        /\ key = x /\ ins = <<>> /\ acc = x
(* one more round with any constant                                            *)
More == /\ n < MaxRounds /\ ins = <<>>
        /\ \E c \in 0..p-1 : cs' = Append(cs, c) /\ lr' = F!Round(e, lr, c)
        /\ n' = n + 1 /\ UNCHANGED <<p, e, x, y, key, ins, acc>>
(* one more input to the chain, keyed by the running result                    *)
Feed == /\ e # 3 /\ Len(cs) > 0 /\ Len(ins) < MaxInputs
        /\ \E v \in 0..p-1 : ins' = Append(ins, v) /\ acc' = A(A(acc, v), F!Hash(e, v, acc, cs, Len(cs)))
        /\ UNCHANGED <<p, e, cs, x, y, lr, n, key>>
Next == More \/ Feed
Sub(a, b) == (a + p - b) % p
Back(q, c) == <<q[2], Sub(q[1], F!Power(e, A(q[2], c)))>>
TypeOK == lr[1] \in 0..p-1 /\ lr[2] \in 0..p-1 /\ acc \in 0..p-1
SameDF == lr[1] = F!DF(e, x, y, cs)
Undo == FoldLeft(LAMBDA q, c : Back(q, c), lr, Reverse(cs)) = <<x, y>>
SameChain == acc = F!Multi(e, ins, key, cs, Len(cs))
(* the exponent is invertible: x -> x^e is onto                                *)
Onto == {F!Power(e, v) : v \in 0..p-1} = 0..p-1
HashPerm == (Onto /\ cs # <<>> /\ ins = <<>>) => Cardinality({F!Hash(e, v, key, cs, Len(cs)) : v \in 0..p-1}) = p
(* a chain that ends equal for two last inputs is a collision of v + H(v) only *)
LastMatters == (ins # <<>>) =>
   LET pre == SubSeq(ins, 1, Len(ins) - 1)
       r == F!Multi(e, pre, key, cs, Len(cs))
   IN \A v \in 0..p-1 : (F!Multi(e, Append(pre, v), key, cs, Len(cs)) = acc)
                        = (A(v, F!Hash(e, v, r, cs, Len(cs))) = A(Last(ins), F!Hash(e, Last(ins), r, cs, Len(cs))))
=============================================================================
