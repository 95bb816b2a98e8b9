------------------------------- MODULE T_C01 -------------------------------
EXTENDS Codec, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok

Expect(e) ==
  CASE e.f = "bytes_to_bits" -> e.r = BytesToBits(e.x)
    [] e.f = "bits_to_bytes" -> e.r = BitsToBytes(e.x)
    [] e.f = "bits_to_usize" -> e.r = BitsNat(e.x)
    [] e.f = "long_bits" -> e.len = 8 * e.n /\ e.r = e.x       \* lists recorded eight bits to the byte
    [] e.f = "long_bytes" -> e.len = (e.n + 7) \div 8 /\ e.r = e.x
    [] e.f = "usize_to_bits" -> e.r = NatBits(e.x, e.n)
Accept(e) == e.ok /\ Expect(e)

Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ ok' = Accept(Sessions[s].ev[l + 1])
Conforms == ok
=============================================================================
