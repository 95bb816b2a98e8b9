---------------------------- MODULE MC_Challenges ----------------------------
(* Drawing challenges: the storage verifier inserts random indices into an    *)
(* ordered set until it has enough, the space verifier draws bit by bit.      *)
(* Whatever the source gives, the result is a permitted draw; every permitted *)
(* result is possible (Outcomes, collected over the whole state space); with  *)
(* a source that gives every index again and again drawing ends.              *)
EXTENDS Challenges, TLC, FiniteSetsExt
CONSTANTS Hi, Bits
VARIABLES kind, lo, hi, want, set, bits, out, pc
vars == <<kind, lo, hi, want, set, bits, out, pc>>
Init == /\ kind \in {"storage", "space"} /\ lo \in 0..Hi-1 /\ hi \in lo+1..Hi
        /\ want \in 0..(IF kind = "storage" THEN hi - lo ELSE 3)
        /\ (kind = "space" => lo = 0 /\ hi = 1)
        /\ set = {} /\ bits = <<>> /\ out = <<>> /\ pc = "draw"
Insert(v) == /\ kind = "storage" /\ pc = "draw" /\ Cardinality(set) < want
             /\ set' = set \cup {v} /\ UNCHANGED <<kind, lo, hi, want, bits, out, pc>>
Bit == /\ kind = "space" /\ pc = "draw" /\ Len(out) < want
       /\ \E b \in {0, 1} :
            IF Len(bits) + 1 = Bits
            THEN /\ bits' = <<>>
                 /\ out' = Append(out, BN(LET all == Append(bits, b) IN MapThenSumSet(LAMBDA i : all[i] * 2 ^ (i - 1), 1..Bits)))
            ELSE bits' = Append(bits, b) /\ out' = out
       /\ UNCHANGED <<kind, lo, hi, want, set, pc>>
Sorted(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i \in 1..Cardinality(S)-1 : q[i] < q[i + 1]
Finish == /\ pc = "draw"
          /\ IF kind = "storage" THEN Cardinality(set) = want /\ out' = Sorted(set) ELSE Len(out) = want /\ out' = out
          /\ pc' = "done" /\ TLCSet(1, TLCGet(1) \cup {<<kind, lo, hi, want, out'>>})
          /\ UNCHANGED <<kind, lo, hi, want, set, bits>>
Next == (\E v \in lo..hi-1 : Insert(v)) \/ Bit \/ Finish
ASSUME TLCSet(1, {})
Permitted == pc = "done" => IF kind = "storage" THEN StorageDraw(out, want, lo, hi) ELSE SpaceDraw(out, want, Bits)
(* every permitted result occurs                                               *)
AllOutcomes ==
  /\ \A l \in 0..Hi-1 : \A h \in l+1..Hi : \A w \in 0..h-l :
       Cardinality({o \in TLCGet(1) : o[1] = "storage" /\ o[2] = l /\ o[3] = h /\ o[4] = w}) = Choose(h - l, w)
  /\ \A w \in 0..3 : Cardinality({o \in TLCGet(1) : o[1] = "space" /\ o[4] = w}) = 2 ^ (Bits * w)
(* every index comes again and again                                           *)
Source == \A v \in 0..Hi-1 : WF_vars(v \in lo..hi-1 /\ Insert(v))
Spec == Init /\ [][Next]_vars /\ Source /\ WF_vars(Bit) /\ WF_vars(Finish)
Ends == <>(pc = "done")
=============================================================================
