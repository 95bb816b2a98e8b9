------------------------------- MODULE Merkle -------------------------------
(* Merkle trees: a layer's nodes are combined in pairs, an odd last node is   *)
(* carried up.  Positions count from 0.                                       *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets
CONSTANT Pair(_, _)

Up(q) == [i \in 1..((Len(q) + 1) \div 2) |-> IF 2 * i <= Len(q) THEN Pair(q[2 * i - 1], q[2 * i]) ELSE q[2 * i - 1]]
RECURSIVE Root(_)
Root(q) == IF Len(q) = 1 THEN q[1] ELSE Root(Up(q))

Sib(i) == IF i % 2 = 0 THEN i + 1 ELSE i - 1
Parents(P) == {i \div 2 : i \in P}
Asc(P) == SetToSortSeq(P, LAMBDA a, b : a < b)
(* siblings of P that are needed and exist in a layer of n nodes, ascending   *)
Need(P, n) == Asc({j \in {Sib(i) : i \in P} : j < n /\ j \notin P})
RECURSIVE NeedCount(_, _)
NeedCount(P, n) == IF n = 1 THEN 0 ELSE Len(Need(P, n)) + NeedCount(Parents(P), (n + 1) \div 2)
RECURSIVE Proof(_, _)
Proof(q, P) ==
  IF Len(q) = 1 THEN <<>>
  ELSE LET w == Need(P, Len(q)) IN [i \in 1..Len(w) |-> q[w[i] + 1]] \o Proof(Up(q), Parents(P))
(* known: position -> hash; hashes are consumed in order; extra ones ignored  *)
RECURSIVE Rebuild(_, _, _)
Rebuild(known, n, hashes) ==
  IF n = 1 THEN known[0]
  ELSE LET P == DOMAIN known
           w == Need(P, n)
           full == [j \in P \cup {w[i] : i \in 1..Len(w)} |->
                      IF j \in P THEN known[j] ELSE hashes[CHOOSE i \in 1..Len(w) : w[i] = j]]
           up == [j \in Parents(P) |-> IF 2 * j + 1 < n THEN Pair(full[2 * j], full[2 * j + 1]) ELSE full[2 * j]]
       IN Rebuild(up, (n + 1) \div 2, SubSeq(hashes, Len(w) + 1, Len(hashes)))
Verify(root, known, n, hashes) ==
  /\ DOMAIN known # {} /\ DOMAIN known \subseteq 0..n-1
  /\ NeedCount(DOMAIN known, n) <= Len(hashes)
  /\ Rebuild(known, n, hashes) = root
=============================================================================
