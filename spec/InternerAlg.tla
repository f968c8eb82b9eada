----------------------------- MODULE InternerAlg -----------------------------
(***************************************************************************)
(* The interner's algorithm, one step per atomic action (or per run of     *)
(* atomic actions that touch nothing another thread changes), with legal   *)
(* clients: a thread uses only ids it holds.  Checked against              *)
(*                                                                         *)
(*   - the abstract table of Interner: each operation takes effect at one  *)
(*     of its steps, with the result the table allows (C01, C02);          *)
(*   - data-race freedom of the stored values: know[t] is the set of       *)
(*     accesses that happen-before thread t's next step, given the memory  *)
(*     orderings in Ord (C03).                                             *)
(*                                                                         *)
(* Every state of this machine is also a schedule (prog, sched) that is    *)
(* replayed into the implementation.                                       *)
(***************************************************************************)
EXTENDS Interner, Sequences, TLC, Json, SequencesExt

CONSTANTS NT,            \* threads
          NV,            \* values
          MaxOps,        \* operations per thread
          Scan,          \* number of slots ahead of the model's first (for replay weights)
          Unused,          \* number of unused slots at the end of each later chunk
          Ord,           \* the memory orderings: a set of names of the weakened ones
          Emit           \* print schedules

T == 1..NT
VARIABLES lock, refs, val,              \* shared: the lock, counts, values (0: none)
          pc, loc, held, left,          \* per thread
          abs,                          \* the abstract table
          know, lockrel, cntrel,        \* what threads, the lock and the counters carry
          reads,                        \* reads[s]: threads that read value s since it was written
          fine,                         \* no step went wrong
          start, prog, sched            \* the run, for replay
mem == <<know, lockrel, cntrel, reads>>
shared == <<lock, refs, val>>
View == <<shared, pc, loc, held, left, abs, mem, fine, start>>

Slots == DOMAIN refs
W(s) == <<s, 0>>
R(s, u) == <<s, u>>
Nil == [op |-> "none", arg |-> 0, i |-> 0, dead |-> 0, was |-> 0]

Strong(name) == name \notin Ord
\* the access facts thread t has after an acquire of x (if name is not weakened)
Got(t, name, x) == IF Strong(name) THEN know[t] \cup x ELSE know[t]

\* chunk (from 0) of slot s, and the cost of indexing into it
ChunkOf(s) == (s - 1) \div Chunk
Walk(s) == 1 + 2 * ChunkOf(s)

Ran(t, n) == sched' = Append(sched, <<t - 1, n>>)
Begin(t, op, arg) == prog' = [prog EXCEPT ![t] = Append(@, <<op, arg>>)]

\* start: "empty", "dead" (value 1 was stored and released), "held" (every thread holds value 1)
Init ==
  /\ start \in {"empty", "dead", "held"}
  /\ lock = 0
  /\ val = IF start = "empty" THEN [s \in 1..Chunk |-> 0] ELSE [s \in 1..Chunk |-> IF s = 1 THEN 1 ELSE 0]
  /\ refs = [s \in 1..Chunk |-> IF start = "held" /\ s = 1 THEN NT ELSE 0]
  /\ pc = [t \in T |-> "idle"]
  /\ loc = [t \in T |-> Nil]
  /\ held = [t \in T |-> IF start = "held" THEN <<1>> ELSE <<>>]
  /\ left = [t \in T |-> MaxOps]
  /\ abs = [val |-> val, cnt |-> refs, peak |-> IF start = "empty" THEN 0 ELSE 1, cap |-> 0]
  /\ know = [t \in T |-> IF start = "empty" THEN {} ELSE {W(1)}]
  /\ lockrel = {}
  /\ cntrel = [s \in 1..Chunk |-> {}]
  /\ reads = [s \in 1..Chunk |-> {}]
  /\ fine = TRUE
  /\ prog = [t \in T |-> <<>>]
  /\ sched = <<>>

\* the abstract operation; fine becomes FALSE if the table does not allow it
Effect(a, op, arg, res) ==
  LET n == IStep(a, op, arg, res)
  IN IF n = {} THEN /\ fine' = FALSE /\ abs' = a
     ELSE /\ fine' = fine /\ abs' = CHOOSE x \in n : TRUE

-----------------------------------------------------------------------------
(* add *)

Lock(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0 /\ lock = 0
  /\ \E v \in 1..NV :
       /\ loc' = [loc EXCEPT ![t] = [Nil EXCEPT !.op = "add", !.arg = v, !.i = 1,
                                                !.was = Cardinality(Live(abs))]]
       /\ Begin(t, "add", v)
  /\ lock' = t
  /\ know' = [know EXCEPT ![t] = Got(t, "lock", lockrel)]
  /\ pc' = [pc EXCEPT ![t] = "scan"]
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ Ran(t, 1)
  /\ UNCHANGED <<refs, val, held, abs, lockrel, cntrel, reads, fine, start>>

\* read a slot's count, then its value; a value is only read if it was ever written
ScanStep(t) ==
  /\ pc[t] = "scan"
  /\ LET s == loc[t].i
         first == (s - 1) % Chunk = 0
         k == Got(t, "scan", cntrel[s])
         hit == val[s] = loc[t].arg
         next == [loc[t] EXCEPT !.i = IF hit THEN s ELSE s + 1,
                                !.dead = IF ~hit /\ refs[s] = 0 /\ @ = 0 THEN s ELSE @]
     IN /\ know' = [know EXCEPT ![t] = k \cup (IF val[s] # 0 THEN {R(s, t)} ELSE {})]
        /\ reads' = [reads EXCEPT ![s] = IF val[s] # 0 THEN @ \cup {t} ELSE @]
        /\ fine' = (fine /\ (val[s] = 0 \/ W(s) \in k))
        /\ loc' = [loc EXCEPT ![t] = next]
        /\ pc' = [pc EXCEPT ![t] = IF hit THEN "incr" ELSE IF s = Len(refs) THEN "end" ELSE "scan"]
        /\ Ran(t, IF s = 1 THEN Scan + 2
                  ELSE IF first THEN (IF s > Chunk + 1 THEN Unused ELSE 0) + 2 ELSE 1)
  /\ UNCHANGED <<shared, held, left, abs, lockrel, cntrel, start, prog>>

\* the whole table was read: use the first dead slot seen, or grow
End(t) ==
  /\ pc[t] = "end"
  /\ pc' = [pc EXCEPT ![t] = IF loc[t].dead # 0 THEN "incr" ELSE "grow"]
  /\ loc' = [loc EXCEPT ![t].i = loc[t].dead]
  /\ Ran(t, (IF Len(refs) > Chunk THEN Unused ELSE 0) + 1)
  /\ UNCHANGED <<shared, held, left, abs, mem, fine, start, prog>>

Grow(t) ==
  /\ pc[t] = "grow"
  /\ refs' = refs \o [s \in 1..Chunk |-> 0]
  /\ val' = val \o [s \in 1..Chunk |-> 0]
  /\ cntrel' = cntrel \o [s \in 1..Chunk |-> {}]
  /\ reads' = reads \o [s \in 1..Chunk |-> {}]
  /\ loc' = [loc EXCEPT ![t].i = Len(refs) + 1]
  /\ pc' = [pc EXCEPT ![t] = "incr"]
  /\ Ran(t, 4 + 2 * (Len(refs) \div Chunk - 1))
  /\ UNCHANGED <<lock, held, left, abs, know, lockrel, fine, start, prog>>

Incr(t) ==
  /\ pc[t] = "incr"
  /\ LET s == loc[t].i
         k == Got(t, "incr", cntrel[s])
         \* with no dead slot seen, all slots were live when the lock was taken
         a == [abs EXCEPT !.peak = IF val[s] # loc[t].arg THEN IMax(@, loc[t].was + 1) ELSE @]
     IN /\ Effect(a, "add", loc[t].arg, s - 1)
        /\ refs' = [refs EXCEPT ![s] = @ + 1]
        /\ know' = [know EXCEPT ![t] = k]
        /\ cntrel' = [cntrel EXCEPT ![s] = IF Strong("incr") THEN @ \cup k ELSE @]
        /\ pc' = [pc EXCEPT ![t] = IF val[s] = loc[t].arg THEN "unlock" ELSE "set"]
        /\ Ran(t, Walk(s) + 1)
  /\ UNCHANGED <<lock, val, loc, held, left, lockrel, reads, start, prog>>

Forget(set, s) == {f \in set : f[1] # s}

Set(t) ==
  /\ pc[t] = "set"
  /\ LET s == loc[t].i
         before == (IF val[s] # 0 THEN {W(s)} ELSE {}) \cup {R(s, u) : u \in reads[s] \ {t}}
     IN /\ fine' = (fine /\ before \subseteq know[t])
        /\ val' = [val EXCEPT ![s] = loc[t].arg]
        /\ know' = [u \in T |-> IF u = t THEN Forget(know[t], s) \cup {W(s)} ELSE Forget(know[u], s)]
        /\ lockrel' = Forget(lockrel, s)
        /\ cntrel' = [x \in Slots |-> Forget(cntrel[x], s)]
        /\ reads' = [reads EXCEPT ![s] = {}]
        /\ Ran(t, Walk(s))
  /\ pc' = [pc EXCEPT ![t] = "unlock"]
  /\ UNCHANGED <<lock, refs, loc, held, left, abs, start, prog>>

Unlock(t) ==
  /\ pc[t] = "unlock"
  /\ lock' = 0
  /\ lockrel' = IF Strong("unlock") THEN know[t] ELSE {}
  /\ held' = [held EXCEPT ![t] = Append(@, loc[t].i)]
  /\ loc' = [loc EXCEPT ![t] = Nil]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ Ran(t, 1)
  /\ UNCHANGED <<refs, val, left, abs, know, cntrel, reads, fine, start, prog>>

-----------------------------------------------------------------------------
(* The operations on ids held *)

Mine(t) == {held[t][k] : k \in DOMAIN held[t]}
Where(t, s) == CHOOSE k \in DOMAIN held[t] : held[t][k] = s /\ \A j \in 1..(k - 1) : held[t][j] # s
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))

Ready(t) == pc[t] = "idle" /\ left[t] > 0

Dup(t) ==
  /\ Ready(t)
  /\ \E s \in Mine(t) :
       LET k == Got(t, "incr", cntrel[s])
       IN /\ Effect(abs, "dup", s - 1, 0)
          /\ Begin(t, "dup", Where(t, s) - 1)
          /\ refs' = [refs EXCEPT ![s] = @ + 1]
          /\ know' = [know EXCEPT ![t] = k]
          /\ cntrel' = [cntrel EXCEPT ![s] = IF Strong("incr") THEN @ \cup k ELSE @]
          /\ held' = [held EXCEPT ![t] = Append(@, s)]
          /\ Ran(t, Walk(s) + 1)
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<lock, val, pc, loc, lockrel, reads, start>>

Get(t) ==
  /\ Ready(t)
  /\ \E s \in Mine(t) :
       /\ IF IStep(abs, "get", s - 1, val[s]) = {} \/ refs[s] = 0 \/ W(s) \notin know[t]
          THEN fine' = FALSE ELSE fine' = fine
       /\ Begin(t, "get", Where(t, s) - 1)
       /\ know' = [know EXCEPT ![t] = @ \cup {R(s, t)}]
       /\ reads' = [reads EXCEPT ![s] = @ \cup {t}]
       /\ Ran(t, Walk(s) + 1)
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<shared, pc, loc, held, abs, lockrel, cntrel, start>>

Count(t) ==
  /\ Ready(t)
  /\ \E s \in Mine(t) :
       /\ fine' = (fine /\ IStep(abs, "cnt", s - 1, refs[s]) # {})
       /\ Begin(t, "cnt", Where(t, s) - 1)
       /\ Ran(t, Walk(s) + 1)
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<shared, pc, loc, held, abs, mem, start>>

\* release: read the count, then replace it if it is still the same
RelLoad(t) ==
  /\ Ready(t)
  /\ \E s \in Mine(t) :
       /\ loc' = [loc EXCEPT ![t] = [Nil EXCEPT !.op = "rel", !.i = s, !.was = refs[s]]]
       /\ know' = [know EXCEPT ![t] = Got(t, "decr", cntrel[s])]
       /\ Begin(t, "rel", Where(t, s) - 1)
       /\ held' = [held EXCEPT ![t] = Without(@, Where(t, s))]
       /\ Ran(t, Walk(s) + 1)
  /\ pc' = [pc EXCEPT ![t] = "cas"]
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<shared, abs, lockrel, cntrel, reads, fine, start>>

RelCas(t) ==
  /\ pc[t] = "cas"
  /\ LET s == loc[t].i
         k == Got(t, "decr", cntrel[s])
     IN /\ know' = [know EXCEPT ![t] = k]
        /\ IF refs[s] = loc[t].was
           THEN /\ refs' = [refs EXCEPT ![s] = @ - 1]
                /\ cntrel' = [cntrel EXCEPT ![s] = IF Strong("decr") THEN @ \cup k ELSE @]
                /\ Effect(abs, "rel", s - 1, 0)
                /\ pc' = [pc EXCEPT ![t] = "idle"]
                /\ loc' = [loc EXCEPT ![t] = Nil]
           ELSE /\ loc' = [loc EXCEPT ![t].was = refs[s]]
                /\ UNCHANGED <<refs, cntrel, abs, fine, pc>>
        /\ Ran(t, 1)
  /\ UNCHANGED <<lock, val, held, left, lockrel, reads, start, prog>>

Next == \E t \in T : \/ Lock(t) \/ ScanStep(t) \/ End(t) \/ Grow(t) \/ Incr(t) \/ Set(t) \/ Unlock(t)
                     \/ Dup(t) \/ Get(t) \/ Count(t) \/ RelLoad(t) \/ RelCas(t)

-----------------------------------------------------------------------------
(* What must hold in every state *)

\* every step was allowed by the table, and no two accesses raced
Fine == fine

\* the table is what the slots say
Refines == /\ \A s \in Slots : Refs(abs, s - 1) = refs[s]
           /\ \A t \in T : \A s \in Mine(t) : refs[s] > 0 /\ abs.val[s] = val[s]

\* references are balanced: a count is what the threads hold, and what they are about to
Balanced ==
  \A s \in Slots :
    refs[s] = FoldLeft(LAMBDA n, t : n + Cardinality({k \in DOMAIN held[t] : held[t][k] = s})
                                       + (IF pc[t] \in {"set", "unlock"} /\ loc[t].i = s THEN 1 ELSE 0)
                                       + (IF pc[t] = "cas" /\ loc[t].i = s THEN 1 ELSE 0),
                       0, [t \in T |-> t])

\* no two slots hold the same value, dead or alive, so equal live values share an id
Distinct == \A s, u \in Slots : s # u /\ val[s] # 0 => val[s] # val[u]

\* ids stay below the bound
Bounded == Len(refs) <= Bound([abs EXCEPT !.peak = IMax(@, Cardinality(Live(abs)))]) \/ \E t \in T : pc[t] = "incr"
            \/ Len(refs) = Chunk

Log == Emit => PrintT(ToJson(<<"SCHED", start, prog, sched>>))
=============================================================================
