----------------------------- MODULE PrimTrace -----------------------------
(* Checks recorded primitive operations and casts against PrimOps.          *)
EXTENDS PrimOps, CaseTrace
=============================================================================
