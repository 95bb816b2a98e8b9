------------------------------ MODULE MC_Pool ------------------------------
(* Challenged blocks of a sealed file are unsealed by a pool of workers.  Each *)
(* job takes its block from its slot, decodes it unit by unit and writes it   *)
(* back to its slot; jobs are taken in any order and interleave in any way.   *)
EXTENDS SealSmall, TLC
CONSTANTS NB, NU, Vals, Confs, Workers
VARIABLES c, orig, sealed, req, todo, slot, w, given
vars == <<c, orig, sealed, req, todo, slot, w, given>>
E(u, d) == EncS(u, d, c)
D(u, d) == DecS(u, d, c)
Id(k) == IdentS(k, c)
Lo(k, prev) == LongsS(k, prev, c)
Sh(n, k, before) == ShortsS(n, k, before, c)
S == INSTANCE Seal WITH Enc <- E, Dec <- D, Ident <- Id, Longs <- Lo, Shorts <- Sh, Cat <- CatS
PoolConfs == [ml : {0, 1}, cl : {1}, ms : {0, 1}, cs : {1}, rounds : {1, 2}, t : {1}, k : {2}]
IV == 3
Orders == {q \in UNION {[1..n -> 0..NB-1] : n \in 1..NB} : Cardinality({q[k] : k \in DOMAIN q}) = Len(q)}
RECURSIVE Go(_, _, _, _, _)
Go(longs, head, blk, r, i) == IF r = c.rounds THEN blk ELSE
  LET nb == S!SealUnit(longs, head, blk, i) IN IF i + 1 < NU THEN Go(longs, head, nb, r, i + 1) ELSE Go(longs, head, nb, r + 1, 0)
RECURSIVE All(_)
All(done) == IF Len(done) = NB THEN done ELSE
  LET prev == S!PrevId(done) IN All(Append(done, Go(S!LongBlocks(done, prev), S!First(IV, prev), orig[Len(done) + 1], 0, 0)))
Idle == [job |-> 0, r |-> 0, i |-> 0, blk |-> <<>>]
Init == /\ c \in Confs /\ orig \in [1..NB -> [1..NU -> Vals]]
        /\ sealed = <<>> /\ req = <<>> /\ todo = {} /\ slot = <<>> /\ w = [k \in Workers |-> Idle] /\ given = <<>>
(* the prover seals, the verifier asks for blocks and gets their slots filled *)
Begin == /\ sealed = <<>> /\ sealed' = All(<<>>)
         /\ req' \in Orders
         /\ slot' = [k \in 1..Len(req') |-> sealed'[req'[k] + 1]]
         /\ given' = [k \in 1..Len(req') |-> LET done == SubSeq(sealed', 1, req'[k])
                                                 prev == S!PrevId(done)
                                             IN [longs |-> S!LongBlocks(done, prev), head |-> S!First(IV, prev)]]
         /\ todo' = 1..Len(req') /\ UNCHANGED <<c, orig, w>>
Take(k) == \E j \in todo : /\ w[k].job = 0 /\ todo' = todo \ {j}
                           /\ w' = [w EXCEPT ![k] = [job |-> j, r |-> 0, i |-> NU - 1, blk |-> slot[j]]]
                           /\ UNCHANGED <<c, orig, sealed, req, slot, given>>
Step(k) == /\ w[k].job # 0 /\ w[k].r < c.rounds
           /\ w' = [w EXCEPT ![k].blk = S!UnsealUnit(given[w[k].job].longs, given[w[k].job].head, w[k].blk, w[k].i),
                             ![k].i = IF w[k].i > 0 THEN w[k].i - 1 ELSE NU - 1,
                             ![k].r = IF w[k].i > 0 THEN w[k].r ELSE w[k].r + 1]
           /\ UNCHANGED <<c, orig, sealed, req, todo, slot, given>>
Finish(k) == /\ w[k].job # 0 /\ w[k].r = c.rounds
             /\ slot' = [slot EXCEPT ![w[k].job] = w[k].blk]
             /\ w' = [w EXCEPT ![k] = Idle] /\ UNCHANGED <<c, orig, sealed, req, todo, given>>
Next == Begin \/ \E k \in Workers : Take(k) \/ Step(k) \/ Finish(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == sealed # <<>> /\ todo = {} /\ \A k \in Workers : w[k].job = 0
Result == Done => slot = [k \in 1..Len(req) |-> orig[req[k] + 1]]      \* C16: originals in request order
Finishes == <>Done
Symm == Permutations(Workers)
=============================================================================
