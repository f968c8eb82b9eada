----------------------------- MODULE FloatTrace -----------------------------
(* Checks recorded float operations against FloatOps.                       *)
EXTENDS FloatOps, CaseTrace
=============================================================================
