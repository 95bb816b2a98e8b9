----------------------------- MODULE MC_Merkle -----------------------------
(* Merkle proofs with an ideal (injective) hash: every tree of up to MaxN     *)
(* leaves over a small alphabet, every proved set, every presentation.        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxN, Alphabet
VARIABLES phase, leaves, P, Q, claim, root
vars == <<phase, leaves, P, Q, claim, root>>
Term(a, b) == "(" \o a \o b \o ")"
M == INSTANCE Merkle WITH Pair <- Term
Pos(n) == SUBSET (0..n-1) \ {{}}
Init == /\ phase = "tree"
        /\ leaves \in UNION {[1..n -> Alphabet] : n \in 1..MaxN}
        /\ P = {} /\ Q = {} /\ claim = <<>> /\ root = ""
(* the prover proves the set P *)
Prove == phase = "tree" /\ phase' = "proved" /\ P' \in Pos(Len(leaves)) /\ UNCHANGED <<leaves, Q, claim, root>>
(* somebody presents it for the set Q with leaf values `claim`, against the root of some leaves *)
Present == /\ phase = "proved" /\ phase' = "presented"
           /\ Q' \in Pos(Len(leaves))
           /\ claim' \in [Q' -> Alphabet]
           /\ root' \in {M!Root(leaves), "x"}
           /\ UNCHANGED <<leaves, P>>
Next == Prove \/ Present
Honest == Q = P /\ root = M!Root(leaves) /\ \A i \in Q : claim[i] = leaves[i + 1]
Accepted == M!Verify(root, claim, Len(leaves), M!Proof(leaves, P))
Complete == phase = "presented" /\ Honest => Accepted
Sound == phase = "presented" /\ Accepted => root = M!Root(leaves) /\ \A i \in Q : claim[i] = leaves[i + 1]
Exact == phase = "proved" => Len(M!Proof(leaves, P)) = M!NeedCount(P, Len(leaves))
(* the root determines every leaf *)
Binding == phase = "tree" => \A other \in [1..Len(leaves) -> Alphabet] : M!Root(other) = M!Root(leaves) => other = leaves
=============================================================================
