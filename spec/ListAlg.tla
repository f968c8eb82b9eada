------------------------------- MODULE ListAlg -------------------------------
(***************************************************************************)
(* The append-only list's algorithm, one step per atomic action.  nxt[0]   *)
(* is the list's head pointer and nxt[n] node n's; 0 is null.  Checked     *)
(* against the sequence of List: each operation takes effect at one of its *)
(* steps, with the result the sequence allows at that step (C04); and for  *)
(* data-race freedom: a thread only looks into a node whose initialisation *)
(* happens-before (C03, know[t] is the set of such nodes).                 *)
(*                                                                         *)
(* Every state is also a schedule that is replayed into the implementation.*)
(***************************************************************************)
EXTENDS List, TLC, Json, SequencesExt

CONSTANTS NT, MaxOps, Initial,   \* threads, operations per thread, elements there at the start
          Ord,                   \* names of the weakened orderings
          Emit
T == 1..NT
MaxNode == Initial + NT * MaxOps

VARIABLES nxt, pc, loc, left, used, know, rel, abs, fine, prog, sched
View == <<nxt, pc, loc, left, used, know, rel, abs, fine>>

Nil == [op |-> "none", arg |-> 0, cur |-> 0, n |-> 0, new |-> 0]
Strong(name) == name \notin Ord
Ran(t) == sched' = Append(sched, t - 1)

\* node n holds element n
Init ==
  /\ nxt = [n \in 0..MaxNode |-> IF n < Initial THEN n + 1 ELSE 0]
  /\ pc = [t \in T |-> "idle"]
  /\ loc = [t \in T |-> Nil]
  /\ left = [t \in T |-> MaxOps]
  /\ used = Initial
  /\ know = [t \in T |-> 1..Initial]
  /\ rel = [n \in 0..MaxNode |-> 1..Initial]
  /\ abs = [items |-> [k \in 1..Initial |-> k]]
  /\ fine = TRUE
  /\ prog = [t \in T |-> <<>>]
  /\ sched = <<>>

\* one load of node c's pointer by t: what is learned and whether it was safe
Loads(t, c, name) ==
  /\ know' = [know EXCEPT ![t] = IF Strong(name) THEN @ \cup rel[c] ELSE @]
  /\ Ran(t)
Safe(t, c) == c = 0 \/ c \in know[t]
Ok(p) == fine' = (fine /\ p)
Done(t) == /\ pc' = [pc EXCEPT ![t] = "idle"] /\ loc' = [loc EXCEPT ![t] = Nil]
At(t, p, l) == /\ pc' = [pc EXCEPT ![t] = p] /\ loc' = [loc EXCEPT ![t] = l]

\* the operation takes effect now, with this result
Effect(op, arg, res) == LStep(abs, op, arg, res) # {}

Begin(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<nxt, rel>>
  /\ \/ /\ used' = used + 1
        /\ prog' = [prog EXCEPT ![t] = Append(@, <<"push", 0>>)]
        /\ At(t, "cas0", [Nil EXCEPT !.op = "push", !.new = used + 1])
     \/ /\ used' = used
        /\ \E op \in {<<"len", 0>>, <<"iter", 0>>, <<"lget", 0>>, <<"lget", 1>>, <<"lget", 2>>} :
             /\ prog' = [prog EXCEPT ![t] = Append(@, op)]
             /\ At(t, IF op[1] = "iter" THEN "walk" ELSE "head", [Nil EXCEPT !.op = op[1], !.arg = op[2]])
  /\ UNCHANGED <<know, abs, fine, sched>>

\* publishing node new at node c's pointer
Cas(t, c, len, failed, name) ==
  IF nxt[c] = 0
  THEN LET k == know[t] \cup rel[c] \cup {loc[t].new}
       IN /\ nxt' = [nxt EXCEPT ![c] = loc[t].new]
          /\ know' = [know EXCEPT ![t] = k]
          /\ rel' = [rel EXCEPT ![c] = IF Strong(name) THEN k ELSE {}]
          /\ Ok(Safe(t, c) /\ Effect("push", loc[t].new, len + 1))
          /\ abs' = [items |-> Append(abs.items, loc[t].new)]
          /\ Done(t)
          /\ Ran(t)
  ELSE /\ Loads(t, c, "cas")
       /\ Ok(Safe(t, c))
       /\ pc' = [pc EXCEPT ![t] = failed]
       /\ UNCHANGED <<nxt, rel, abs, loc>>

Cas0(t) == /\ pc[t] = "cas0" /\ Cas(t, 0, 0, "head", "push0") /\ UNCHANGED <<left, used, prog>>
CasN(t) == /\ pc[t] = "casn" /\ Cas(t, loc[t].cur, loc[t].n, "peek", "push") /\ UNCHANGED <<left, used, prog>>

\* load of the head pointer
LoadHead(t) ==
  /\ pc[t] = "head"
  /\ Loads(t, 0, "head")
  /\ LET h == nxt[0]
         l == [loc[t] EXCEPT !.cur = h, !.n = 1]
     IN IF h = 0
        THEN /\ Ok(IF loc[t].op = "len" THEN Effect("len", 0, 0) ELSE Effect("lget", loc[t].arg, <<"none">>))
             /\ Done(t)
        ELSE IF loc[t].op = "lget" /\ loc[t].arg = 0
        THEN /\ Ok(Effect("lget", 0, <<"ok", h>>) /\ h \in know'[t])
             /\ Done(t)
        ELSE /\ Ok(TRUE)
             /\ At(t, "peek", l)
  /\ UNCHANGED <<nxt, left, used, rel, abs, prog>>

\* is there a next node
Peek(t) ==
  /\ pc[t] = "peek"
  /\ LET c == loc[t].cur
     IN /\ Loads(t, c, "peek")
        /\ IF nxt[c] # 0 THEN /\ Ok(Safe(t, c)) /\ At(t, "move", loc[t])
           ELSE IF loc[t].op = "push" THEN /\ Ok(Safe(t, c)) /\ At(t, "casn", loc[t])
           ELSE /\ Ok(Safe(t, c) /\ (IF loc[t].op = "len" THEN Effect("len", 0, loc[t].n)
                                     ELSE Effect("lget", loc[t].arg, <<"none">>)))
                /\ Done(t)
  /\ UNCHANGED <<nxt, left, used, rel, abs, prog>>

\* go to it (the pointer is read again, relaxed)
Move(t) ==
  /\ pc[t] = "move"
  /\ LET c == loc[t].cur
         l == [loc[t] EXCEPT !.cur = nxt[c], !.n = @ + 1]
     IN /\ know' = know /\ Ran(t)
        /\ IF loc[t].op = "lget" /\ loc[t].arg = loc[t].n
           THEN /\ Ok(Safe(t, c) /\ nxt[c] \in know[t] /\ Effect("lget", loc[t].arg, <<"ok", nxt[c]>>))
                /\ Done(t)
           ELSE /\ Ok(Safe(t, c))
                /\ At(t, "peek", l)
  /\ UNCHANGED <<nxt, left, used, rel, abs, prog>>

\* iteration: load the next pointer, then read the element
Walk(t) ==
  /\ pc[t] = "walk"
  /\ LET c == loc[t].cur
     IN /\ Loads(t, c, "walk")
        /\ IF nxt[c] = 0
           THEN /\ Ok(Safe(t, c) /\ loc[t].n = Len(abs.items)) /\ Done(t)
           ELSE /\ Ok(Safe(t, c) /\ nxt[c] \in know'[t] /\ abs.items[loc[t].n + 1] = nxt[c])
                /\ At(t, "walk", [loc[t] EXCEPT !.cur = nxt[c], !.n = @ + 1])
  /\ UNCHANGED <<nxt, left, used, rel, abs, prog>>

Next == \E t \in T : Begin(t) \/ Cas0(t) \/ CasN(t) \/ LoadHead(t) \/ Peek(t) \/ Move(t) \/ Walk(t)

-----------------------------------------------------------------------------
Fine == fine

RECURSIVE Chain(_, _)
Chain(c, n) == IF n = 0 \/ nxt[c] = 0 THEN <<>> ELSE <<nxt[c]>> \o Chain(nxt[c], n - 1)
\* the chain of nodes is the sequence
Refines == Chain(0, MaxNode + 1) = abs.items
\* nothing is there twice, and every completed push is there
Complete == /\ Cardinality({abs.items[k] : k \in DOMAIN abs.items}) = Len(abs.items)
            /\ (\A t \in T : loc[t].op # "push") => Len(abs.items) = used

Log == Emit => PrintT(ToJson(<<"SCHED", Initial, prog, sched>>))
=============================================================================
