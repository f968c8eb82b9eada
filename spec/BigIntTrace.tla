---------------------------- MODULE BigIntTrace ----------------------------
(* Checks recorded BigInt operations against BigIntOps; the configuration  *)
(* names the relation.                                                     *)
EXTENDS BigIntOps, CaseTrace
=============================================================================
