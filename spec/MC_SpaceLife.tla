---------------------------- MODULE MC_SpaceLife ----------------------------
(* All histories of a space up to a length, written out for replay.           *)
EXTENDS SpaceLife, TLC, Json, IOUtils, SequencesExt
CONSTANT MaxLen
VARIABLE h
Act(a, n, k, want) == h' = Append(h, [a |-> a, n |-> n, k |-> k, want |-> want])
Says(n, k) == IF Silent(n) THEN "silent" ELSE IF Truthful(n, k) THEN "true" ELSE ""
Init == LInit /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \/ \E n \in Sizes : Prepare(n) /\ Act("prepare", n, 0, "")
           \/ \E n \in Sizes, d \in {0, 1, 2} : Dirt(Bytes(n) + d - 1) /\ Act("dirt", n, d, "")
           \/ Remove /\ Act("remove", 0, 0, "")
           \/ \E n \in Sizes, k \in Keys : Mark(n, k) /\ Act("mark", n, k, "")
           \/ \E n \in Sizes, k \in Keys : CanUse(n) /\ UNCHANGED disk /\ Act("respond", n, k, Says(n, k))
Spec == Init /\ [][Next]_<<disk, h>>
(* preparing forgets everything that was there                                *)
Forgets == h # <<>> /\ h[Len(h)].a = "prepare" => Silent(h[Len(h)].n)
(* the same preparation and marking right before a response make it truthful  *)
Enough == LET z == Len(h) IN
  (z >= 3 /\ h[z].a = "respond" /\ h[z-1].a = "mark" /\ h[z-2].a = "prepare"
     /\ h[z].n = h[z-1].n /\ h[z].k = h[z-1].k /\ h[z].n = h[z-2].n) => h[z].want = "true"
ASSUME TLCSet(1, {})
(* histories that end in a call and do not only shuffle the environment       *)
Other(i) == h[i].a \in {"dirt", "remove"}
Worth == ~Other(MaxLen) /\ (\A i \in 1..MaxLen-1 : ~(Other(i) /\ Other(i + 1))) /\ \A i \in 1..MaxLen-1 : ~(h[i].a = "respond" /\ h[i + 1].a = "respond")
Keep == (Len(h) = MaxLen /\ Worth) => TLCSet(1, TLCGet(1) \cup {h})
Written == IF "SCENARIOS" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.SCENARIOS, SetToSeq(TLCGet(1))) ELSE TRUE
=============================================================================
