------------------------------- MODULE Round -------------------------------
(* Challenge rounds over a sealed file.  The verifier holds the original, the *)
(* public parameters and the root committed to when the file was sealed; the  *)
(* prover holds the sealed file, of which parts may be altered or put back,   *)
(* and which may be sealed anew with or without a new commitment.             *)
(* In a round over the positions Q the verifier sees the blocks of Q, what    *)
(* they depend on, and a Merkle proof for the identifiers of those blocks.    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NB, Versions
Blocks == 0..NB-1
VARIABLES org,      \* version of the original
          sea,      \* [n |-> number of the sealing (0: none), of |-> version of the original]
          bad,      \* altered blocks of the sealed file
          com       \* number of the sealing committed to
rvars == <<org, sea, bad, com>>
RInit == org = 1 /\ sea = [n |-> 0, of |-> 0] /\ bad = {} /\ com = 0
NewOriginal(v) == org' = v /\ UNCHANGED <<sea, bad, com>>
Seal(commit) == /\ sea' = [n |-> sea.n + 1, of |-> org] /\ bad' = {}
                /\ com' = IF commit THEN sea.n + 1 ELSE com
                /\ UNCHANGED org
Alter(b) == sea.n > 0 /\ bad' = bad \cup {b} /\ UNCHANGED <<org, sea, com>>
Repair == bad # {} /\ bad' = {} /\ UNCHANGED <<org, sea, com>>

(* identifiers are hashes of sealed blocks: membership is what was committed  *)
Member(Q) == IF com = sea.n /\ Q \cap bad = {} THEN "yes" ELSE "no"
(* unsealing a block uses the block, its predecessor's identifier and earlier *)
(* blocks; which earlier ones is not determined at this level ("any")         *)
Before(Q) == {b \in Blocks : \E q \in Q : b < q}
Verifies(Q) ==
  IF sea.of # org \/ Q \cap bad # {} \/ \E q \in Q : q > 0 /\ (q - 1) \in bad THEN "no"
  ELSE IF Before(Q) \cap bad = {} THEN "yes" ELSE "any"
=============================================================================
