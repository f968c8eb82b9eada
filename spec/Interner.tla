------------------------------ MODULE Interner ------------------------------
(***************************************************************************)
(* The interner as its users see it (C01, C02): a table of ids, each with  *)
(* a value and a number of references.                                     *)
(*                                                                         *)
(*   val[i + 1], cnt[i + 1]   value and references of id i                 *)
(*   peak                     most ids that were ever live at once         *)
(*   cap                      capacity it was created with                 *)
(*                                                                         *)
(* IStep(s, op, arg, res) is the set of states (empty or one) in which     *)
(* operation op with argument arg, returning res, can leave state s.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Chunk           \* ids are allocated in chunks of this many

RoundUp(n) == ((n + Chunk - 1) \div Chunk) * Chunk
IMax(a, b) == IF a > b THEN a ELSE b

INew(capacity) == [val |-> <<>>, cnt |-> <<>>, peak |-> 0, cap |-> capacity]

Known(s, i) == i \in 0..(Len(s.cnt) - 1)
Refs(s, i) == IF Known(s, i) THEN s.cnt[i + 1] ELSE 0
Live(s) == {k \in DOMAIN s.cnt : s.cnt[k] > 0}
LiveOf(s, v) == {k \in Live(s) : s.val[k] = v}
\* every id issued is below this
Bound(s) == IMax(RoundUp(s.cap), RoundUp(s.peak))

\* the table with id i present
Grown(s, i) == IF Known(s, i) THEN s
               ELSE [s EXCEPT !.val = @ \o [k \in 1..(i + 1 - Len(s.val)) |-> 0],
                              !.cnt = @ \o [k \in 1..(i + 1 - Len(s.cnt)) |-> 0]]

IStep(s, op, arg, res) ==
  CASE op = "add" ->
         LET same == LiveOf(s, arg)
         IN IF same # {}
            THEN IF (res + 1) \in same THEN {[s EXCEPT !.cnt[res + 1] = @ + 1]} ELSE {}
            ELSE LET p == IMax(s.peak, Cardinality(Live(s)) + 1)
                     t == [s EXCEPT !.peak = p]
                 IN IF res >= 0 /\ Refs(s, res) = 0 /\ res < Bound(t)
                    THEN {[Grown(t, res) EXCEPT !.val[res + 1] = arg, !.cnt[res + 1] = 1]}
                    ELSE {}
    [] op = "dup" -> IF Refs(s, arg) > 0 THEN {[s EXCEPT !.cnt[arg + 1] = @ + 1]} ELSE {}
    [] op = "rel" -> IF Refs(s, arg) > 0 THEN {[s EXCEPT !.cnt[arg + 1] = @ - 1]} ELSE {s}
    \* many of them in a row by one thread, which holds a reference throughout
    [] op = "dups" -> IF Refs(s, arg[1]) > 0 THEN {[s EXCEPT !.cnt[arg[1] + 1] = @ + arg[2]]} ELSE {}
    [] op = "rels" -> IF Refs(s, arg[1]) > arg[2] THEN {[s EXCEPT !.cnt[arg[1] + 1] = @ - arg[2]]} ELSE {}
    \* the same for many ids at once, one thread being alone.  addn: arg[2] values from arg[1] on, none of
    \* them there; res[i + 1] is the value that got id i, or 0
    [] op = "addn" ->
         LET new == {k \in DOMAIN res : res[k] # 0}
             t == [s EXCEPT !.peak = IMax(@, Cardinality(Live(s)) + arg[2])]
             g == Grown(t, Len(res) - 1)
             Cell(k) == k <= Len(res) /\ res[k] # 0
         IN IF /\ Cardinality(new) = arg[2]
               /\ {res[k] : k \in new} = arg[1]..(arg[1] + arg[2] - 1)
               /\ \A k \in new : Refs(s, k - 1) = 0
               /\ Len(res) <= IMax(Bound(t), Len(s.cnt))
            THEN {[g EXCEPT !.val = [k \in DOMAIN @ |-> IF Cell(k) THEN res[k] ELSE @[k]],
                            !.cnt = [k \in DOMAIN @ |-> IF Cell(k) THEN 1 ELSE @[k]]]}
            ELSE {}
    \* every live id that is arg[2] modulo arg[1]
    [] op = "dupn" -> {[s EXCEPT !.cnt = [k \in DOMAIN @ |-> IF @[k] > 0 /\ (k - 1) % arg[1] = arg[2] THEN @[k] + 1 ELSE @[k]]]}
    [] op = "reln" -> {[s EXCEPT !.cnt = [k \in DOMAIN @ |-> IF @[k] > 0 /\ (k - 1) % arg[1] = arg[2] THEN @[k] - 1 ELSE @[k]]]}
    [] op = "getn" -> IF res = [k \in 1..arg |-> IF Refs(s, k - 1) > 0 THEN s.val[k] ELSE 0] THEN {s} ELSE {}
    [] op = "cntn" -> IF res = [k \in 1..arg |-> Refs(s, k - 1)] THEN {s} ELSE {}
    [] op = "get" -> IF Refs(s, arg) > 0 /\ s.val[arg + 1] = res THEN {s} ELSE {}
    [] op = "tget" -> IF res = (IF Refs(s, arg) > 0 THEN <<"ok", s.val[arg + 1]>> ELSE <<"none">>) THEN {s} ELSE {}
    [] op = "cnt" -> IF res = Refs(s, arg) THEN {s} ELSE {}
=============================================================================
