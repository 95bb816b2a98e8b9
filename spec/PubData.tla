------------------------------ MODULE PubData ------------------------------
(* Public sealing parameters: a key and an initialisation vector kept in a    *)
(* file.  last[path] is what was saved there last.                            *)
EXTENDS Naturals, Sequences
(* what the parameters of a sealing need: see T_C19 for the concrete sizes    *)
Geometry(g) ==
  /\ g.unit_l > 0 /\ g.block_l > 0 /\ g.data_l > 0
  /\ g.block_l % g.unit_l = 0 /\ g.data_l % g.block_l = 0
  /\ g.unit_pl = g.unit_l + 1
  /\ g.block_pl = (g.block_l \div g.unit_l) * g.unit_pl
  /\ g.big_block_l % g.unit_l = 0 /\ g.big_block_pl = (g.big_block_l \div g.unit_l) * g.unit_pl
=============================================================================
