------------------------------ MODULE SealBig ------------------------------
(* Sealing as the code does it: units are byte strings, the hash is BLAKE3.   *)
(* The configuration [nb, nu, pl, ml, cl, ms, cs, rounds, vr, key, iv] is the *)
(* first event of the recorded session s.                                     *)
EXTENDS SlothBig, Hashes, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok
C == Sessions[s].ev[1]
First16(h) == SubSeq(HexToSeq(h), 1, 16)
B16(d) == First16(Blake3(SeqToHex(d)))
DB == INSTANCE Depend WITH Hash16 <- B16
RECURSIVE CatFrom(_, _, _)
CatFrom(q, a, b) == IF a > b THEN "" ELSE IF a = b THEN q[a] ELSE
  LET m == (a + b) \div 2 IN CatFrom(q, a, m) \o CatFrom(q, m + 1, b)
CatB(q) == CatFrom(q, 1, Len(q))
EncB(u, d) == BToBytes(Sloth(BAddMod(BFromBytes(u), BFromBytes(Blake3(d)), C.key), C.key, C.vr), C.pl)
DecB(u, d) == BToBytes(BSubMod(SlothInv(BFromBytes(u), C.key, C.vr), BMod(BFromBytes(Blake3(d)), C.key), C.key), C.pl)
IdentB(b) == Blake3(CatB(b))
LongsB(b, prev) ==
  IF b = 0 THEN <<>>
  ELSE IF C.ml = 0 THEN DB!LongRandom(C.nb, First16(Blake3(prev[1])), b, IF C.cl = 0 THEN b \div 10 + 1 ELSE C.cl)
  ELSE DB!LongMode(b, C.cl, C.ml)
ShortsB(n, i, before) ==
  IF C.ms = 0 THEN DB!ShortRandom(n, First16(Blake3(IF before = <<>> THEN "" ELSE before[1])), i, C.cs)
  ELSE DB!ShortMode(n, i, C.cs, C.ms)
SL == INSTANCE Seal WITH Enc <- EncB, Dec <- DecB, Ident <- IdentB, Longs <- LongsB, Shorts <- ShortsB, Cat <- CatB
RECURSIVE SealGo(_, _, _, _, _), UnsealGo(_, _, _, _, _)
SealGo(longs, head, blk, r, i) ==
  IF r = C.rounds \/ Len(blk) = 0 THEN blk
  ELSE LET nb == TLCEval(SL!SealUnit(longs, head, blk, i)) IN
       IF i + 1 < Len(blk) THEN SealGo(longs, head, nb, r, i + 1) ELSE SealGo(longs, head, nb, r + 1, 0)
UnsealGo(longs, head, blk, r, i) ==
  IF r = C.rounds \/ Len(blk) = 0 THEN blk
  ELSE LET nb == TLCEval(SL!UnsealUnit(longs, head, blk, i)) IN
       IF i > 0 THEN UnsealGo(longs, head, nb, r, i - 1) ELSE UnsealGo(longs, head, nb, r + 1, Len(blk) - 1)
(* block number Len(done), given the sealed blocks before it                  *)
SealBlock(done, blk, iv) == LET prev == SL!PrevId(done) IN SealGo(TLCEval(SL!LongBlocks(done, prev)), SL!First(iv, prev), blk, 0, 0)
UnsealBlock(done, blk, iv) == LET prev == SL!PrevId(done) IN UnsealGo(TLCEval(SL!LongBlocks(done, prev)), SL!First(iv, prev), blk, 0, Len(blk) - 1)
=============================================================================
