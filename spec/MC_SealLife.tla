---------------------------- MODULE MC_SealLife -----------------------------
(* All histories, up to a length, of two files being stored: sealings stack,  *)
(* an unsealing undoes the latest one still in force, and new data may be put *)
(* in a file at any time.  Every file stays what its own history makes it;    *)
(* the histories are written out and replayed into the implementation.        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, MaxDepth, Confs
Files == {1, 2}
VARIABLES stack, ver, h
vars == <<stack, ver, h>>
Do(a, f, c, act) == act /\ h' = Append(h, [a |-> a, p |-> f, v |-> c])
Init == stack = [f \in Files |-> <<>>] /\ ver = [f \in Files |-> 1] /\ h = <<>>
Seal(f, c) == Len(stack[f]) < MaxDepth /\ stack' = [stack EXCEPT ![f] = Append(@, c)] /\ UNCHANGED ver
Unseal(f) == stack[f] # <<>> /\ stack' = [stack EXCEPT ![f] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED ver
Renew(f) == stack' = [stack EXCEPT ![f] = <<>>] /\ ver' = [ver EXCEPT ![f] = 3 - @]
Next == /\ Len(h) < MaxLen
        /\ \E f \in Files : \/ \E c \in Confs : Do("seal", f, c, Seal(f, c))
                            \/ Do("unseal", f, 0, Unseal(f))
                            \/ (h # <<>> /\ h[Len(h)].a # "renew" /\ Do("renew", f, 0, Renew(f)))
Spec == Init /\ [][Next]_vars
(* a file is back to its data exactly when its own sealings are undone        *)
Count(a, f, from) == Len(SelectSeq(SubSeq(h, from, Len(h)), LAMBDA e : e.a = a /\ e.p = f))
Since(f) == LET P == {i \in 1..Len(h) : h[i].a = "renew" /\ h[i].p = f} IN IF P = {} THEN 1 ELSE 1 + CHOOSE i \in P : \A j \in P : j <= i
Own == \A f \in Files : Len(stack[f]) = Count("seal", f, Since(f)) - Count("unseal", f, Since(f))
Keep == Len(h) = MaxLen /\ h[MaxLen].a = "unseal" /\ h[1].p = 1 => TLCSet(1, TLCGet(1) \cup {h})
ASSUME TLCSet(1, {})
Written == IF "SCENARIOS" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.SCENARIOS, SetToSeq(TLCGet(1))) ELSE TRUE
=============================================================================
