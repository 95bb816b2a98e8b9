----------------------------- MODULE MC_PubData -----------------------------
(* Saving to and loading from files that may already hold anything: a         *)
(* self-delimiting encoding written from the start of the file is read back   *)
(* exactly, with or without truncating what was there.                        *)
EXTENDS Naturals, Sequences
CONSTANTS MaxLen, Truncate
Str == UNION {[1..k -> {0, 1}] : k \in 0..MaxLen}
VARIABLES file, last
Enc(k, v) == <<Len(k)>> \o k \o <<Len(v)>> \o v
Over(old, new) == IF Truncate \/ Len(old) <= Len(new) THEN new ELSE new \o SubSeq(old, Len(new) + 1, Len(old))
Dec(f) == LET kl == f[1]
              vl == f[kl + 2]
          IN [key |-> SubSeq(f, 2, kl + 1), iv |-> SubSeq(f, kl + 3, kl + 2 + vl)]
Init == file \in Str /\ last = [key |-> <<>>, iv |-> <<2>>]     \* nothing saved yet, any old content
Save == \E k, v \in Str : file' = Over(file, Enc(k, v)) /\ last' = [key |-> k, iv |-> v]
Next == Save
Saved == last.iv # <<2>>
RoundTrip == Saved => Dec(file) = last
=============================================================================
