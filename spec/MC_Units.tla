------------------------------ MODULE MC_Units ------------------------------
(* Laws of the unit helpers over base-4 "bytes": every data string up to six  *)
(* digits, every unit length; modular addition and subtraction of every pair  *)
(* of two-digit values for every modulus that fits.                           *)
EXTENDS Units, FiniteSets
CONSTANT B, MaxLen
VARIABLES phase, d, n
Dig == 0..B-1
Init == phase = "choose" /\ d \in UNION {[1..k -> Dig] : k \in 0..MaxLen} /\ n = 0
Next == phase = "choose" /\ phase' = "chosen" /\ n' \in 1..MaxLen /\ Len(d) % n' = 0 /\ d' = d
units == Len(d) \div n
PadStrip == phase = "chosen" => /\ Strip(Pad(d, units, n), units, n, n + 1) = d
                                /\ Len(Pad(d, units, n)) = Len(d) + units
                                /\ \A k \in 1..units : Pad(d, units, n)[k * (n + 1)] = 0
SplitJoin == phase = "chosen" => Join(Split(d, n)) = d /\ \A k \in 1..units : Len(Split(d, n)[k]) = n
PadIsPerUnit == phase = "chosen" => Pad(d, units, n) = Join([k \in 1..units |-> Split(d, n)[k] \o <<0>>])
XorLaw == phase = "chosen" => LET e == Range(d, 0, n % (Len(d) + 1)) IN XorSeq(XorSeq(d, e), e) = d /\ XorSeq(e, d) = XorSeq(d, e)
Val(a) == a[1] + B * a[2]
Two(v) == <<v % B, (v \div B) % B>>
MAdd(a, b, p) == Two((Val(a) + Val(b)) % p)
MSub(a, b, p) == Two((Val(a) - Val(b)) % p)
Two2 == {<<x, y>> : x, y \in Dig}
ASSUME \A p \in 1..B*B : \A a, b \in Two2 : Val(a) < p => MSub(MAdd(a, b, p), b, p) = a /\ MAdd(MSub(a, b, p), b, p) = a
(* a zero top digit keeps a padded unit below every modulus of full length    *)
ASSUME \A p \in (B + 1)..(B * B) : \A a \in Two2 : a[2] = 0 => Val(a) < p
=============================================================================
