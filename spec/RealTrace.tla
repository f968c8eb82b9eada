----------------------------- MODULE RealTrace -----------------------------
(* Checks recorded Fixed and Rat operations against RealOps.                *)
EXTENDS RealOps, CaseTrace
=============================================================================
