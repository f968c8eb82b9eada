----------------------------- MODULE StaticIter -----------------------------
(***************************************************************************)
(* Static iterators (C26) as a machine over owned elements ("tokens").     *)
(*                                                                         *)
(* A chain is a tree of adapters over sources; Item(ch, n, i) is what the  *)
(* plain loop sees at index i.  Running a consumer over a chain produces   *)
(* events:                                                                 *)
(*   <<"c", f, item>>   closure f (0: the consumer's own) called with item *)
(*   <<"d", t>>         token t dropped                                    *)
(*   <<"res", v>>       the consumer returned v                            *)
(*   <<"end">>          the returned value is gone                         *)
(* after which borrowed arrays are dropped by their owner.  Where the      *)
(* plain loop does not determine the order (branches of a zip at one       *)
(* index, drops) any order is allowed.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SrcTok(k, i) == 1000 * k + i + 1
NewTok(f, i) == 100000 * f + i + 1

RECURSIVE Item(_, _)
Item(ch, i) ==
  CASE ch[1] = "src" -> <<"t", SrcTok(ch[2], i)>>
    [] ch[1] = "ref" -> <<"r", SrcTok(ch[2], i)>>
    [] ch[1] = "range" -> <<"i", i>>
    [] ch[1] = "map" -> IF ch[3] = "new" THEN <<"t", NewTok(ch[2], i)>> ELSE Item(ch[4], i)
    [] ch[1] = "enum" -> <<"p", <<"i", i>>, Item(ch[2], i)>>
    [] ch[1] = "zip" -> <<"p", Item(ch[2], i), Item(ch[3], i)>>
    [] ch[1] = "zipa" -> <<"l", [k \in DOMAIN ch[2] |-> Item(ch[2][k], i)]>>

RECURSIVE Toks(_)
Toks(v) ==
  CASE v[1] = "t" -> {v[2]}
    [] v[1] \in {"r", "i"} -> {}
    [] v[1] = "p" -> Toks(v[2]) \cup Toks(v[3])
    [] v[1] = "l" -> UNION {Toks(v[2][k]) : k \in DOMAIN v[2]}

Kids(ch) ==
  CASE ch[1] = "map" -> {ch[4]}
    [] ch[1] = "enum" -> {ch[2]}
    [] ch[1] = "zip" -> {ch[2], ch[3]}
    [] ch[1] = "zipa" -> {ch[2][k] : k \in DOMAIN ch[2]}
    [] OTHER -> {}
RECURSIVE Nodes(_)
Nodes(ch) == {ch} \cup UNION {Nodes(k) : k \in Kids(ch)}
MapsOf(ch) == {m \in Nodes(ch) : m[1] = "map"}
NodeOf(ch, f) == CHOOSE m \in MapsOf(ch) : m[2] = f
FidsIn(ch) == {m[2] : m \in MapsOf(ch)}
SourcesOf(ch, kind) == {m[2] : m \in {x \in Nodes(ch) : x[1] = kind}}

\* ------------------------------------------------------------- the plain loop
Items(ch, n) == [k \in 1..n |-> Item(ch, k - 1)]
ResultOf(ch, n, consumer, fail, panics) ==
  LET whole == <<"ok", <<"l", Items(ch, n)>>>>
      it == Item(ch, fail)
  IN IF panics THEN <<"panic">>
     ELSE CASE consumer = "drop" -> <<"dropped">>
            [] consumer = "any" -> <<"ok", IF fail >= 0 THEN 1 ELSE 0>>
            [] consumer = "all" -> <<"ok", IF fail >= 0 THEN 0 ELSE 1>>
            [] fail < 0 -> whole
            [] consumer \in {"opt", "optopt", "optres"} -> <<"none">>
            [] consumer \in {"optopt2", "resopt2"} -> <<"none2">>
            [] consumer \in {"res", "rawres", "resopt", "optres2"} -> <<"err", it>>
            [] consumer = "try_fold" -> <<"err", <<"l", Items(ch, fail + 1)>>>>
            [] OTHER -> whole
ResultToks(consumer, v) == IF v[1] \in {"ok", "err"} /\ consumer \notin {"any", "all"} THEN Toks(v[2]) ELSE {}
OwnClosure(consumer) == consumer \notin {"array", "sum", "product", "drop", "rawres"}

\* how often closure f may have been called in the end
CallCounts(ch, n, consumer, fail, panic, f) ==
  IF consumer = "drop" THEN {0}
  ELSE IF panic[1] = 0 THEN {panic[2] + 1}
  ELSE IF panic[1] > 0
       THEN LET j == panic[2]
                culprit == NodeOf(ch, panic[1])
            IN IF f = 0 THEN {j}
               ELSE IF f \in FidsIn(culprit) THEN {j + 1}
               ELSE IF panic[1] \in FidsIn(NodeOf(ch, f)) THEN {j}
               ELSE {j, j + 1}
  ELSE {IF fail >= 0 THEN fail + 1 ELSE n}

\* ------------------------------------------------------------- the machine
\* state: calls so far per closure, index reached, tokens dropped, phase
Start(ch) == [calls |-> [f \in FidsIn(ch) \cup {0} |-> 0], at |-> 0, gone |-> {}, held |-> {},
              phase |-> "run", ok |-> TRUE]

Arg(ch, f, i) == IF f = 0 THEN Item(ch, i) ELSE Item(NodeOf(ch, f)[4], i)

StepTo(ch, n, consumer, fail, panic, st, e) ==
  CASE e[1] = "c" ->
         LET f == e[2]
             i == st.calls[f]
         IN [st EXCEPT !.calls[f] = @ + 1, !.at = i,
               !.ok = @ /\ st.phase = "run"
                        /\ i \in 0..(n - 1) /\ i >= st.at
                        /\ e[3] = Arg(ch, f, i)
                        /\ Toks(e[3]) \cap st.gone = {}]
    [] e[1] = "d" ->
         [st EXCEPT !.gone = @ \cup {e[2]},
               !.ok = @ /\ e[2] \notin st.gone
                        \* borrowed elements outlive the run
                        /\ (st.phase # "end" => (e[2] \div 1000) \notin SourcesOf(ch, "ref"))]
    [] e[1] = "res" ->
         [st EXCEPT !.phase = "res",
               !.ok = @ /\ st.phase = "run"
                        /\ e[2] = ResultOf(ch, n, consumer, fail, panic[1] >= 0)
                        /\ ResultToks(consumer, e[2]) \cap st.gone = {}
                        /\ \A f \in DOMAIN st.calls :
                             (f # 0 \/ OwnClosure(consumer))
                                => st.calls[f] \in CallCounts(ch, n, consumer, fail, panic, f)]
    [] e[1] = "end" ->
         [st EXCEPT !.phase = "end", !.ok = @ /\ st.phase = "res"]

\* tokens that existed: all sources, and what completed calls of the replacing maps made
Existing(ch, n, panic, st) ==
  {SrcTok(k, i) : k \in SourcesOf(ch, "src") \cup SourcesOf(ch, "ref"), i \in 0..(n - 1)}
  \cup UNION {{NewTok(m[2], i) : i \in 0..(st.calls[m[2]] - (IF panic[1] = m[2] THEN 2 ELSE 1))} :
               m \in {x \in MapsOf(ch) : x[3] = "new"}}

\* <<"it", n, chain, consumer, fail, panic, log>>
IterOk(c) ==
  LET n == c[2]
      ch == c[3]
      st == FoldLeft(LAMBDA s, e : StepTo(ch, n, c[4], c[5], c[6], s, e), Start(ch), c[7])
  IN /\ st.ok
     /\ st.phase = "end"
     /\ st.gone = Existing(ch, n, c[6], st)       \* each exactly once: repeats are refused above

\* Elements of no size: <<"unit", n, consumer, stop, <<drops, returned>>>>; 2n elements were made
UnitOk(c) ==
  /\ c[5][1] = 2 * c[2]
  /\ c[5][2] = (IF c[3] = "map" /\ c[4] >= 0 THEN 0 ELSE 1)

\* Plain numbers: <<"num", v, what, result>>
NumOk(c) ==
  LET v == c[2]
      n == Len(v)
  IN c[4] = CASE c[3] = "sum" -> FoldLeft(LAMBDA a, x : a + x, 0, v)
              [] c[3] = "product" -> FoldLeft(LAMBDA a, x : a * x, 1, SubSeq(v, 1, IF n < 6 THEN n ELSE 6))
              [] c[3] = "range" -> (n * (n - 1)) \div 2
              [] c[3] = "index" -> FoldLeft(LAMBDA a, k : a + (k - 1) * v[k], 0, [k \in DOMAIN v |-> k])
              [] c[3] = "dot" -> FoldLeft(LAMBDA a, x : a + x * x, 0, v)

IterCase(c) ==
  CASE c[1] = "it" -> IterOk(c)
    [] c[1] = "unit" -> UnitOk(c)
    [] c[1] = "num" -> NumOk(c)
=============================================================================
