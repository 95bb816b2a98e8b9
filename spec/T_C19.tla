------------------------------- MODULE T_C19 -------------------------------
(* Recorded generation, saving and loading of parameters, and the presets.    *)
(* last: what was saved at each path; ivs: all vectors generated so far;     *)
(* valid: keys already found valid (for a width).                             *)
EXTENDS PubData, BigNum, Json, IOUtils, TLC, FiniteSets
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok, last, ivs, valid
Valid(p, w) == /\ BIsPrime(p) /\ BMod(p, "4") = "3"
               /\ BLt(p, BPow2(8 * w))                \* a sealed unit fits
               /\ ~BLt(p, BPow2(8 * (w - 1)))         \* every padded unit is smaller
Accept(e) ==
  CASE e.f = "params" -> e.ok /\ (<<e.key, e.w>> \in valid \/ Valid(e.key, e.w)) /\ Len(e.iv) = 256 /\ e.iv \notin ivs
    [] e.f = "spread" ->    \* over all vectors of the session: every position varies, every byte occurs
         LET b == {HexToSeq(v) : v \in ivs} IN
         /\ UNION {{x[i] : i \in 1..128} : x \in b} = 0..255
         /\ \A i \in 1..128 : Cardinality({x[i] : x \in b}) > 100
    [] e.f = "vectors" ->   \* many of them: none repeats, so they are not picked from few
         /\ \A i \in 1..Len(e.vals) : Len(e.vals[i]) = 256
         /\ Cardinality({e.vals[i] : i \in 1..Len(e.vals)}) = Len(e.vals)
    [] e.f \in {"old", "copy"} -> TRUE
    [] e.f = "save" -> e.ok
    [] e.f = "load" -> e.ok /\ e.key = last[e.path].key /\ e.iv = last[e.path].iv
    [] e.f = "preset" -> e.ok /\ Geometry(e.g) /\ e.g.unit_pl \in {64, 128, 256} /\ e.g.data_l = e.mb * 16 * 1024 * e.g.unit_l
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ last = [x \in {"none"} |-> [key |-> "0", iv |-> ""]] /\ ivs = {} /\ valid = {}
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ last' = CASE e.f = "save" -> (e.path :> [key |-> e.key, iv |-> e.iv]) @@ last
                        [] e.f = "copy" -> (e.path :> last[e.from]) @@ last
                        [] OTHER -> last
           /\ ivs' = IF e.f = "params" THEN ivs \cup {e.iv} ELSE ivs
           /\ valid' = IF e.f = "params" THEN valid \cup {<<e.key, e.w>>} ELSE valid
Conforms == ok
=============================================================================
