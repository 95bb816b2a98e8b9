----------------------------- MODULE MC_Depend ------------------------------
(* Selection guarantees for every small geometry, mode and count; digests are *)
(* arbitrary, put together from bytes in Bytes.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxNum, MaxCnt, Bytes
VARIABLES num, idx, cnt, d
vars == <<num, idx, cnt, d>>
Init == /\ num \in (1..MaxNum) \cup {300, 70000} /\ idx \in {i \in (0..MaxNum) \cup {299, 69999} : i < num}
        /\ cnt \in 0..MaxCnt /\ d \in {[i \in 1..16 |-> IF i <= k THEN a ELSE IF i % 2 = 0 THEN b ELSE c] : a, b, c \in Bytes, k \in 0..8}
Next == UNCHANGED vars
Flip(x) == [i \in 1..16 |-> x[17 - i]]
INSTANCE Depend WITH Hash16 <- Flip
LongOK == \A m \in 1..3 : LET o == LongMode(idx, cnt, m) IN
            WellFounded(o, idx) /\ Distinct(o) /\ (m < 3 => Len(o) <= cnt)
ShortOK == \A m \in 1..2 : LET o == ShortMode(num, idx, cnt, m) IN
            Inside(o, num, idx) /\ Distinct(o) /\ Len(o) <= cnt
RandomOK == LET a == LongRandom(num, d, idx, cnt)
                b == ShortRandom(num, d, idx, cnt) IN
            /\ WellFounded(a, idx) /\ Distinct(a) /\ Len(a) <= cnt
            /\ Inside(b, num, idx) /\ Distinct(b) /\ Len(b) <= cnt
=============================================================================
