--------------------------- MODULE MC_SpaceProto ----------------------------
(* The space protocol against an arbitrary prover: the verifier draws any     *)
(* challenges (repeats included), the prover holds any part of the space,     *)
(* makes proofs from any answers for any statement, and presents any          *)
(* combination of proof elements, positions and statement.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Slots,      \* slot values 0..Slots-1
          NChal,      \* challenges drawn
          NResp,      \* responses required
          MaxProofs,
          NeedDistinct \* the verifier's rule; FALSE shows what it is for
(* A delay function: slot of each x; slot Slots-1 has no preimage.            *)
DF(key, m, x) == (key + m + x) % (Slots - 1)
Xs == 0..Slots-2
Hash(key, xs) == <<key, xs>>
Keys == {0, 1}
VARIABLES chal, held, proofs, accepted
vars == <<chal, held, proofs, accepted>>
Key == 0
Mm == 0
Truth(st, xs) == /\ Len(xs) = Len(st.ys)
                 /\ \A i \in 1..Len(xs) : xs[i] \in Xs /\ DF(st.key, st.m, xs[i]) = st.ys[i]
                 /\ st.h = Hash(st.key, xs)
P == INSTANCE SpaceProto WITH Holds <- Truth
Pos == [1..NResp -> 1..NChal]
Init == /\ chal \in [1..NChal -> 0..Slots-1]
        /\ held \in SUBSET Xs           \* answers the prover can give (it kept these slots)
        /\ proofs = <<>> /\ accepted = {}
(* any positions, any answers it holds (or junk), any claimed key and m        *)
Junk == Slots + 7
Prove == /\ Len(proofs) < MaxProofs
         /\ \E pos \in Pos : \E xs \in [1..NResp -> held \cup {Junk}] : \E k \in Keys : \E m \in Keys :
              LET st == [key |-> k, m |-> m, ys |-> [i \in 1..NResp |-> chal[pos[i]]], h |-> Hash(k, xs)] IN
              proofs' = Append(proofs, P!Proof(st, pos, xs))
         /\ UNCHANGED <<chal, held, accepted>>
(* the verifier assembles the statement from its own key, m and challenges     *)
Present == /\ proofs # <<>> /\ accepted = {}
           /\ \E pos \in Pos : \E a, b \in DOMAIN proofs :
                LET q == P!Ask([key |-> Key, m |-> Mm, ys |-> [i \in 1..NResp |-> chal[pos[i]]], h |-> proofs[a].stmt.h],
                               pos, <<a, b, b>>) IN
                /\ IF NeedDistinct THEN P!MayAccept(q, proofs)
                   ELSE \E id \in DOMAIN proofs : P!Whole(q.parts, id) /\ Truth(q.stmt, proofs[id].xs)
                /\ accepted' = {q}
           /\ UNCHANGED <<chal, held, proofs>>
Next == Prove \/ Present
(* Acceptance means: at NResp different positions the challenge has a preimage *)
(* the prover holds.                                                           *)
Sound == \A q \in accepted :
  /\ Cardinality({q.pos[i] : i \in 1..NResp}) = NResp
  /\ \A i \in 1..NResp : \E x \in held : DF(Key, Mm, x) = chal[q.pos[i]]
(* An honest prover that can answer enough challenges is accepted.             *)
Answerable == {i \in 1..NChal : \E x \in held : DF(Key, Mm, x) = chal[i]}
Complete == \A id \in DOMAIN proofs :
  (Truth(proofs[id].stmt, proofs[id].xs) /\ P!Distinct(proofs[id].pos) /\ proofs[id].stmt.key = Key /\ proofs[id].stmt.m = Mm)
     => P!MustAccept(P!Ask(proofs[id].stmt, proofs[id].pos, <<id, id, id>>), proofs)
=============================================================================
