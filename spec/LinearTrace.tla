---------------------------- MODULE LinearTrace ----------------------------
(* Checks recorded histories of the interner and the list.                  *)
EXTENDS Linear, CaseTrace
=============================================================================
