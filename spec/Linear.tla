------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* Does a recorded concurrent history have an explanation in which every   *)
(* operation takes effect, as the specification allows, at one moment      *)
(* between its invocation and its return?                                  *)
(*                                                                         *)
(* A history is a sequence of <<"i", thread, op, arg>> and                 *)
(* <<"r", thread, res>>.  The machine of the explanation has the state of  *)
(* the specified object and the set of operations that are under way and   *)
(* have not yet taken effect; taking effect is a silent step, done no      *)
(* earlier than the next return needs it.                                  *)
(***************************************************************************)
EXTENDS Interner, List, SequencesExt

Step(s, op, arg, res) == IF "items" \in DOMAIN s THEN LStep(s, op, arg, res) ELSE IStep(s, op, arg, res)

\* position of the return that belongs to the invocation at k, 0 if there is none
RECURSIVE ReturnFrom(_, _, _)
ReturnFrom(h, j, t) ==
  IF j > Len(h) THEN 0
  ELSE IF h[j][1] = "r" /\ h[j][2] = t THEN j
  ELSE ReturnFrom(h, j + 1, t)
ReturnOf(h, k) == ReturnFrom(h, k + 1, h[k][2])

\* An explanation so far is <<state, pend>>: pend are the invocations (positions) still to take effect.
\* Settle lets operations take effect until that of thread t has, in every possible way.
RECURSIVE Settle(_, _, _)
Settle(h, t, C) ==
  LET open == {c \in C : \E p \in c[2] : h[p][2] = t}
  IN IF open = {} THEN C
     ELSE (C \ open) \cup
          Settle(h, t, UNION {UNION {{<<s2, c[2] \ {p}>> : s2 \in Step(c[1], h[p][3], h[p][4], h[ReturnOf(h, p)][3])}
                                      : p \in c[2]} : c \in open})

\* all explanations of the first k events from all explanations C of those before
Event(h, C, k) ==
  IF C = {} THEN {}
  ELSE IF h[k][1] = "i" THEN IF ReturnOf(h, k) = 0 THEN {} ELSE {<<c[1], c[2] \cup {k}>> : c \in C}
  ELSE IF h[k][1] = "r" THEN Settle(h, h[k][2], C)
  ELSE {}                 \* a thread crashed, or nothing progressed

Explained(h, s) ==
  LET Ev(C, k) == Event(h, C, k)
  IN \E c \in FoldLeft(Ev, {<<s, {}>>}, [k \in 1..Len(h) |-> k]) : c[2] = {}

\* <<"int", capacity, history>> or <<"list", 0, history>>
LinearOk(c) == Explained(c[3], IF c[1] = "int" THEN INew(c[2]) ELSE LNew)
=============================================================================
