-------------------------- MODULE BigMachineTrace --------------------------
(* Checks recorded histories of big integers.                               *)
EXTENDS BigMachine, CaseTrace
=============================================================================
