------------------------------ MODULE HBTrace ------------------------------
(* Checks recorded access logs for data races.                              *)
EXTENDS HB, CaseTrace
=============================================================================
