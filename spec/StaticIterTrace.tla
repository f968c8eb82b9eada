-------------------------- MODULE StaticIterTrace --------------------------
(* Checks recorded runs of static iterators against StaticIter.             *)
EXTENDS StaticIter, CaseTrace
=============================================================================
