---------------------------- MODULE UniformTrace ----------------------------
(* Checks recorded frequencies of random values against Uniform.            *)
EXTENDS Uniform, CaseTrace
=============================================================================
