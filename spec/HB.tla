--------------------------------- MODULE HB ---------------------------------
(***************************************************************************)
(* Data-race freedom (C03): the happens-before relation of the Rust / C11  *)
(* memory model, as induced by the orderings the code asks for, along one  *)
(* interleaving.                                                           *)
(*                                                                         *)
(*   clock[t]   what thread t knows (a vector clock)                       *)
(*   rel[l]     what reading atomic l with acquire teaches                 *)
(*   wr[l]      last write of plain location l: <<thread, time>>           *)
(*   rd[l]      times of the reads of l since                              *)
(*   node[n]    initialisation of list node n: <<thread, time>>            *)
(*                                                                         *)
(* Events are <<t, "L"|"S"|"X"|"F", loc, node, order>> (load, store,       *)
(* read-modify-write, failed compare-exchange), <<t, "R"|"W", loc, node>>  *)
(* (plain read and write) and <<t, "P", node>> (t is about to publish the  *)
(* node it initialised).  node is 0 if the location is in no such node.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

T == 0..3                       \* threads
Zero == [u \in T |-> 0]
Join(a, b) == [u \in T |-> IF a[u] > b[u] THEN a[u] ELSE b[u]]
Acquires(o) == o \in {"acq", "ar", "sc"}
Releases(o) == o \in {"rel", "ar", "sc"}

\* numbers of locations and nodes in a log
MaxLoc(log) == FoldLeft(LAMBDA m, e : IF e[2] # "P" /\ e[3] > m THEN e[3] ELSE m, 0, log)
MaxNode(log) == FoldLeft(LAMBDA m, e : IF e[2] = "P" /\ e[3] > m THEN e[3] ELSE m, 0, log)

Init0(log) == [clock |-> [t \in T |-> [Zero EXCEPT ![t] = 1]],
               rel |-> [l \in 1..MaxLoc(log) |-> Zero],
               wr |-> [l \in 1..MaxLoc(log) |-> <<0, 0>>],
               rd |-> [l \in 1..MaxLoc(log) |-> Zero],
               node |-> [n \in 1..MaxNode(log) |-> <<0, 0>>],
               ok |-> TRUE]

\* what <<u, time>> did is known to t
KnownTo(s, t, ev) == ev[2] <= s.clock[t][ev[1]]
InNode(s, t, n) == n = 0 \/ KnownTo(s, t, s.node[n])

Learn(s, t, l, o) == IF Acquires(o) THEN [s EXCEPT !.clock[t] = Join(@, s.rel[l])] ELSE s
Tick(s, t) == [s EXCEPT !.clock[t][t] = @ + 1]

Do(s, e) ==
  LET t == e[1]
      k == e[2]
      l == e[3]
  IN CASE k = "P" -> Tick([s EXCEPT !.node[l] = <<t, s.clock[t][t]>>], t)
       [] k \in {"L", "F"} -> [Learn(s, t, l, e[5]) EXCEPT !.ok = @ /\ InNode(s, t, e[4])]
       [] k = "S" -> Tick([s EXCEPT !.rel[l] = IF Releases(e[5]) THEN s.clock[t] ELSE Zero,
                                    !.ok = @ /\ InNode(s, t, e[4])], t)
       [] k = "X" -> LET a == Learn(s, t, l, e[5])
                     IN Tick([a EXCEPT !.rel[l] = IF Releases(e[5]) THEN Join(@, a.clock[t]) ELSE @,
                                       !.ok = @ /\ InNode(s, t, e[4])], t)
       [] k = "R" -> [s EXCEPT !.rd[l][t] = s.clock[t][t],
                               !.ok = @ /\ InNode(s, t, e[4]) /\ KnownTo(s, t, s.wr[l])]
       [] k = "W" -> [s EXCEPT !.wr[l] = <<t, s.clock[t][t]>>,
                               !.rd[l] = Zero,
                               !.ok = @ /\ InNode(s, t, e[4]) /\ KnownTo(s, t, s.wr[l])
                                        /\ \A u \in T : s.rd[l][u] <= s.clock[t][u]]
       [] OTHER -> [s EXCEPT !.ok = FALSE]

\* <<kind, param, log>>
HBOk(c) == FoldLeft(Do, Init0(c[3]), c[3]).ok
=============================================================================
