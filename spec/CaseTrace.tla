----------------------------- MODULE CaseTrace -----------------------------
(***************************************************************************)
(* Trace validation for the operations whose specification is a relation   *)
(* between arguments and outcome.  The trace is an NDJSON file; each line  *)
(* is one batch of executions recorded from the implementation, each of    *)
(* them a tuple <<op, arg, ..., outcome>>.  One step of this machine       *)
(* consumes one batch; a batch with a case the specification does not      *)
(* allow is reported with the indexes of the offending cases.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Allowed(_)       \* the relation, from a specification module

VARIABLE line

Trace == ndJsonDeserialize(IOEnv.TRACE)

Rejected(i) == {j \in DOMAIN Trace[i] : ~Allowed(Trace[i][j])}

Init == line = 1

Consume ==
  /\ line <= Len(Trace)
  /\ LET bad == Rejected(line)
     IN IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", line, bad>>)
  /\ line' = line + 1

Next == Consume
=============================================================================
