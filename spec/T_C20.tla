------------------------------- MODULE T_C20 -------------------------------
(* Recorded uses of the unit helpers.  files is the content of the files of   *)
(* the session, by path.                                                      *)
EXTENDS Units, BigNum, Hashes, Json, IOUtils, TLC, FiniteSets
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok, files
Bytes(h) == Len(h) \div 2
ModAdd(a, b, p) == BToBytes(BAddMod(BFromBytes(a), BFromBytes(b), p), Bytes(a))
ModSub(a, b, p) == BToBytes(BSubMod(BMod(BFromBytes(a), p), BMod(BFromBytes(b), p), p), Bytes(a))
H(x) == HexToSeq(x)
Hs(u) == [i \in 1..Len(u) |-> HexToSeq(u[i])]
Accept(e) ==
  CASE e.f = "modadd" -> e.r = ModAdd(e.a, e.b, e.p)
    [] e.f = "modsub" -> e.r = ModSub(e.a, e.b, e.p)
    [] e.f = "addsub" -> e.r = e.a
    [] e.f = "units" -> e.ok /\ Hs(e.u) = Split(H(e.d), e.len) /\ e.back = e.d
    [] e.f = "join" -> e.r = SeqToHex(Join(Hs(e.u)))
    [] e.f = "xor" -> e.r = SeqToHex(XorSeq(H(e.a), H(e.b)))
    [] e.f = "blake3" -> e.r = Blake3(e.d)
    [] e.f = "md5" -> e.r = Md5(e.d)
    [] e.f = "write" -> TRUE
    [] e.f = "read" -> e.r = SeqToHex(Range(H(files[e.path]), e.off, e.len))
    [] e.f = "random" -> /\ e.ok /\ Bytes(e.r) = e.len
                         /\ e.len >= 16 => \A x \in DOMAIN files : files[x] # e.r
                         \* 16384 bytes miss a value with probability below 10^-25; no 64 of them come again
                         /\ e.len >= 16384 => /\ LET b == H(e.r) IN {b[i] : i \in 1..e.len} = 0..255
                                              /\ LET c == {SubSeq(e.r, 128 * i + 1, 128 * (i + 1)) : i \in 0..(e.len \div 64 - 1)}
                                                 IN Cardinality(c) = e.len \div 64
    [] e.f = "randoms" -> \* many short ones: none repeats, every byte of them varies
                          /\ \A i \in 1..Len(e.vals) : Bytes(e.vals[i]) = e.len
                          /\ Cardinality({e.vals[i] : i \in 1..Len(e.vals)}) = Len(e.vals)
                          /\ \A b \in 0..e.len-1 : Cardinality({SubSeq(e.vals[i], 2 * b + 1, 2 * b + 2) : i \in 1..Len(e.vals)}) > 230
    [] e.f = "pad" -> /\ e.ok /\ e.src = files[e.from]
                      /\ e.r = SeqToHex(Pad(H(files[e.from]), e.units, e.n))
    [] e.f = "compress" -> /\ e.ok /\ e.src = files[e.from]
                           /\ e.r = SeqToHex(Strip(H(files[e.from]), e.units, e.n, e.w))
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ files = [x \in {"none"} |-> ""]
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ files' = CASE e.f = "write" -> (e.path :> e.d) @@ files
                         [] e.f \in {"pad", "compress", "random"} -> (e.to :> e.r) @@ files
                         [] OTHER -> files
Conforms == ok
=============================================================================
