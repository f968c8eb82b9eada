----------------------------- MODULE SliceTrace ----------------------------
(* Checks recorded slice operations and histories against SliceOps, BitVec. *)
EXTENDS SliceOps, BitVec, CaseTrace
=============================================================================
