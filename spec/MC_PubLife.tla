----------------------------- MODULE MC_PubLife -----------------------------
(* All histories, up to a length, of two parameter files: saving parameters   *)
(* of several sizes, loading them, and other hands leaving longer or shorter  *)
(* content, removing a file or copying one over the other.  What a load must  *)
(* return is part of the history; the histories are written out and replayed. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, Values
Files == {1, 2}
Nothing == 0
Junk == 99
VARIABLES held, h
Do(a, f, v, act) == act /\ h' = Append(h, [a |-> a, p |-> f, v |-> v])
Put(f, v) == held' = [held EXCEPT ![f] = v]
Init == held = [f \in Files |-> Nothing] /\ h = <<>>
Next ==
  /\ Len(h) < MaxLen
  /\ \E f \in Files :
       \/ \E v \in Values : Do("save", f, v, Put(f, v))
       \/ held[f] \in Values /\ Do("load", f, held[f], UNCHANGED held)
       \/ \E k \in {0, 10, 5000} : held[f] # Junk /\ Do("junk", f, k, Put(f, Junk))
       \/ held[f] # Nothing /\ Do("remove", f, 0, Put(f, Nothing))
       \/ held[3 - f] \in Values /\ Do("copy", f, held[3 - f], Put(f, held[3 - f]))
Spec == Init /\ [][Next]_<<held, h>>
(* the memory of a file is the last thing put there and nothing else          *)
LastPut(f) == LET P == {i \in 1..Len(h) : h[i].p = f /\ h[i].a # "load"} IN
              IF P = {} THEN Nothing
              ELSE LET e == h[CHOOSE i \in P : \A j \in P : j <= i] IN
                   CASE e.a \in {"save", "copy"} -> e.v [] e.a = "junk" -> Junk [] OTHER -> Nothing
Memory == \A f \in Files : held[f] = LastPut(f)
Loads == \A i \in 1..Len(h) : h[i].a = "load" =>
           \E j \in 1..i-1 : h[j].p = h[i].p /\ h[j].a \in {"save", "copy"} /\ h[j].v = h[i].v
Keep == Len(h) = MaxLen /\ h[MaxLen].a = "load" => TLCSet(1, TLCGet(1) \cup {h})
ASSUME TLCSet(1, {})
Written == IF "SCENARIOS" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.SCENARIOS, SetToSeq(TLCGet(1))) ELSE TRUE
=============================================================================
