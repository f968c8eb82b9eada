--------------------------- MODULE CompoundTrace ---------------------------
(* Checks recorded complex, vector and matrix operations against Compound.  *)
EXTENDS Compound, CaseTrace
=============================================================================
