------------------------------ MODULE MC_Seal ------------------------------
(* A file of NB blocks of NU units is sealed unit by unit, then audited block *)
(* by block and finally unsealed in place, in every configuration.            *)
EXTENDS SealSmall
CONSTANTS NB, NU, Vals, Confs
VARIABLES c, orig, file, cur, phase, b, r, i, q
vars == <<c, orig, file, cur, phase, b, r, i, q>>
E(u, d) == EncS(u, d, c)
D(u, d) == DecS(u, d, c)
Id(k) == IdentS(k, c)
Lo(k, prev) == LongsS(k, prev, c)
Sh(n, k, before) == ShortsS(n, k, before, c)
S == INSTANCE Seal WITH Enc <- E, Dec <- D, Ident <- Id, Longs <- Lo, Shorts <- Sh, Cat <- CatS
AllConfs == [ml : 0..3, cl : 0..2, ms : 0..2, cs : 0..2, rounds : 0..2, t : {1}, k : {2}]
SomeConfs == [ml : {0, 1, 2}, cl : {2}, ms : {0, 1, 2}, cs : {1, 2}, rounds : {1, 2}, t : {0, 2}, k : {1, 4}]
IV == 3
Before(k) == SubSeq(file, 1, k)           \* the blocks before block k
Longs(k) == S!LongBlocks(Before(k), S!PrevId(Before(k)))
HeadOf(k) == S!First(IV, S!PrevId(Before(k)))
Init == /\ c \in Confs
        /\ orig \in [1..NB -> [1..NU -> Vals]]
        /\ file = orig /\ cur = orig[1] /\ phase = "seal" /\ b = 0 /\ r = 0 /\ i = 0 /\ q = 0
(* next unit, round, block when sealing; the block is written when done       *)
SealStep ==
  /\ phase = "seal" /\ r < c.rounds
  /\ cur' = S!SealUnit(Longs(b), HeadOf(b), cur, i)
  /\ IF i + 1 < NU THEN i' = i + 1 /\ r' = r ELSE i' = 0 /\ r' = r + 1
  /\ UNCHANGED <<c, orig, file, phase, b, q>>
SealWrite ==
  /\ phase = "seal" /\ r = c.rounds
  /\ file' = [file EXCEPT ![b + 1] = cur]
  /\ IF b + 1 < NB THEN b' = b + 1 /\ phase' = phase /\ cur' = orig[b + 2] ELSE b' = b /\ phase' = "sealed" /\ cur' = cur
  /\ r' = 0 /\ i' = 0 /\ UNCHANGED <<c, orig, q>>
(* fetch one block and unseal it in memory                                    *)
Audit == /\ phase = "sealed" /\ phase' = "audit" /\ q' \in 0..NB-1 /\ cur' = file[q' + 1] /\ r' = 0 /\ i' = NU - 1
         /\ UNCHANGED <<c, orig, file, b>>
(* somebody alters one unit of the sealed file, then block q is audited       *)
Tamper == /\ phase = "sealed" /\ phase' = "tampered"
          /\ \E k \in 1..NB, u \in 1..NU, v \in 0..P-1 :
               v # file[k][u] /\ file' = [file EXCEPT ![k][u] = v] /\ q' = k - 1
               /\ cur' = file'[k]
          /\ r' = 0 /\ i' = NU - 1 /\ UNCHANGED <<c, orig, b>>
AuditStep ==
  /\ phase \in {"audit", "tampered"} /\ r < c.rounds
  /\ cur' = S!UnsealUnit(Longs(q), HeadOf(q), cur, i)
  /\ IF i > 0 THEN i' = i - 1 /\ r' = r ELSE i' = NU - 1 /\ r' = r + 1
  /\ UNCHANGED <<c, orig, file, phase, b, q>>
(* unseal the whole file in place, last block first                           *)
Restore == /\ phase = "sealed" /\ phase' = "unseal" /\ b' = NB - 1 /\ cur' = file[NB] /\ r' = 0 /\ i' = NU - 1
           /\ UNCHANGED <<c, orig, file, q>>
RestoreStep ==
  /\ phase = "unseal" /\ r < c.rounds
  /\ cur' = S!UnsealUnit(Longs(b), HeadOf(b), cur, i)
  /\ IF i > 0 THEN i' = i - 1 /\ r' = r ELSE i' = NU - 1 /\ r' = r + 1
  /\ UNCHANGED <<c, orig, file, phase, b, q>>
RestoreWrite ==
  /\ phase = "unseal" /\ r = c.rounds
  /\ file' = [file EXCEPT ![b + 1] = cur]
  /\ IF b > 0 THEN b' = b - 1 /\ cur' = file[b] /\ phase' = phase ELSE b' = b /\ cur' = cur /\ phase' = "restored"
  /\ r' = 0 /\ i' = NU - 1 /\ UNCHANGED <<c, orig, q>>
Next == SealStep \/ SealWrite \/ Audit \/ AuditStep \/ Tamper \/ Restore \/ RestoreStep \/ RestoreWrite
InField == \A k \in 1..NB : \A u \in 1..NU : file[k][u] \in 0..P-1 /\ cur[u] \in 0..P-1
Restored == phase = "restored" => file = orig                                         \* C14
AuditExact == phase = "audit" /\ r = c.rounds => cur = orig[q + 1]                     \* C16
(* an altered challenged block never unseals to its original units            \* C17 *)
TamperSeen == phase = "tampered" /\ r = c.rounds => cur # orig[q + 1]
=============================================================================
