---------------------------- MODULE FixedWidthTrace ------------------------
(* Checks recorded U<N> and I<N> operations against FixedWidth.            *)
EXTENDS FixedWidth, CaseTrace
=============================================================================
