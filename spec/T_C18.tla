------------------------------- MODULE T_C18 -------------------------------
(* Recorded Merkle trees, proofs and verifications.                           *)
EXTENDS BigNum, Hashes, Json, IOUtils, TLC, FiniteSets
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok, tree
H2(a, b) == Sha256(a \o b)
M == INSTANCE Merkle WITH Pair <- H2
Leaf(d, off, len) == Sha256(SubSeq(d, 2 * off + 1, 2 * (off + len)))
(* leaves over the consecutive parts of a file; a part cut short by the end of *)
(* the data is covered by "differ" only                                        *)
Whole(d, len, ll) == [i \in 1..(len \div ll) |-> Leaf(d, (i - 1) * ll, ll)]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Known(e) == [i \in {e.at[k] : k \in 1..Len(e.at)} |-> e.leaves[i + 1]]
Set(q) == {q[k] : k \in 1..Len(q)}
InRange(e) == \A k \in 1..Len(e.at) : e.at[k] < Len(e.leaves)
Truly(e) == InRange(e) /\ M!Verify(e.root, Known(e), Len(e.leaves), M!Proof(tree.leaves, Set(e.proved)))
Honest(e) == e.at = e.proved /\ e.leaves = tree.leaves /\ e.root = tree.root
Accept(e) ==
  CASE e.f = "file" ->
         /\ e.ok /\ e.root = M!Root(e.leaves)
         /\ Len(e.leaves) = (e.len + e.ll - 1) \div e.ll
         /\ Prefix(Whole(e.d, e.len, e.ll), e.leaves)
    [] e.f = "data" ->
         e.ok /\ e.leaves = [i \in 1..Len(e.vals) |-> Sha256(e.vals[i])] /\ e.root = M!Root(e.leaves)
    [] e.f = "same" -> e.ok /\ e.root = tree.root        \* root over the same leaves, obtained another way
    [] e.f = "differ" -> e.ok /\ e.root # tree.root      \* the file differs in one byte
    [] e.f = "verify" -> /\ e.ok => Truly(e)
                         /\ Honest(e) => e.ok
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ tree = [leaves |-> <<>>, root |-> ""]
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ tree' = IF e.f \in {"file", "data"} THEN [leaves |-> e.leaves, root |-> e.root] ELSE tree
Conforms == ok
=============================================================================
