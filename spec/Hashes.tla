------------------------------- MODULE Hashes -------------------------------
(* The concrete hash functions the code uses, on byte strings in hex.  They   *)
(* are evaluated by java/Hashes.java.  Abstract models never use this module: *)
(* there the hash is a parameter.                                             *)
Blake3(h) == CHOOSE s \in STRING : TRUE
Sha256(h) == CHOOSE s \in STRING : TRUE
Md5(h)    == CHOOSE s \in STRING : TRUE
=============================================================================
