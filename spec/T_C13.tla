------------------------------- MODULE T_C13 -------------------------------
(* Recorded dependency selections.                                            *)
EXTENDS BigNum, Hashes, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok
First16(h) == SubSeq(HexToSeq(h), 1, 16)
B16(d) == First16(Blake3(SeqToHex(d)))
D == INSTANCE Depend WITH Hash16 <- B16
Accept(e) ==
  CASE e.f = "long" -> e.ok /\ e.out = D!LongMode(e.idx, e.cnt, e.mode)
    [] e.f = "short" -> e.ok /\ e.out = D!ShortMode(e.num, e.idx, e.cnt, e.mode)
    [] e.f = "longr" -> e.ok /\ e.out = D!LongRandom(e.num, First16(Blake3(e.data)), e.idx, e.cnt)
    [] e.f = "shortr" -> e.ok /\ e.out = D!ShortRandom(e.num, First16(Blake3(e.data)), e.idx, e.cnt)
    [] e.f = "ltab" -> e.ok /\ e.rows = [i \in 1..e.num |-> D!LongMode(i - 1, e.cnt, e.mode)]
    [] e.f = "stab" -> e.ok /\ e.rows = [i \in 1..e.num |-> D!ShortMode(e.num, i - 1, e.cnt, e.mode)]
    [] e.f = "ltabx" -> e.ok /\ e.len = e.num /\ \A r \in 1..Len(e.rows) : e.rows[r].out = D!LongMode(e.rows[r].idx, e.cnt, e.mode)
    [] e.f = "stabx" -> e.ok /\ e.len = e.num /\ \A r \in 1..Len(e.rows) : e.rows[r].out = D!ShortMode(e.num, e.rows[r].idx, e.cnt, e.mode)
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ ok' = Accept(Sessions[s].ev[l + 1])
Conforms == ok
=============================================================================
