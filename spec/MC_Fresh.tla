------------------------------ MODULE MC_Fresh ------------------------------
(* What freshness is for: sessions of the space protocol against a prover     *)
(* that keeps every proof it ever made but may drop its space.  If no session *)
(* value comes twice, acceptance in a session means that the space was marked *)
(* for that session's value and was held when its challenge was answered.     *)
EXTENDS Fresh, TLC
CONSTANTS Keys, Chals, FreshKeys, MaxSessions
VARIABLES used, key, chal, space, kept, heldNow, accepted, n
vars == <<used, key, chal, space, kept, heldNow, accepted, n>>
Init == used = {} /\ key = 0 /\ chal = 0 /\ space = 0 /\ kept = {} /\ heldNow = FALSE /\ accepted = FALSE /\ n = 0
Begin == /\ n < MaxSessions
         /\ \E k \in Keys, c \in Chals : /\ (FreshKeys => New(<<k>>, used))
                                         /\ key' = k /\ chal' = c /\ used' = used \cup {k}
         /\ n' = n + 1 /\ heldNow' = FALSE /\ accepted' = FALSE /\ UNCHANGED <<space, kept>>
Mark == key # 0 /\ space' = key /\ UNCHANGED <<used, key, chal, kept, heldNow, accepted, n>>
Drop == space' = 0 /\ UNCHANGED <<used, key, chal, kept, heldNow, accepted, n>>
Answer == /\ key # 0 /\ space = key /\ kept' = kept \cup {<<key, chal>>} /\ heldNow' = TRUE
          /\ UNCHANGED <<used, key, chal, space, accepted, n>>
Present == /\ key # 0 /\ \E p \in kept : p = <<key, chal>>
           /\ accepted' = TRUE /\ UNCHANGED <<used, key, chal, space, kept, heldNow, n>>
Next == Begin \/ Mark \/ Drop \/ Answer \/ Present
NoReplay == accepted => heldNow
=============================================================================
