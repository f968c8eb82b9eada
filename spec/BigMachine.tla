----------------------------- MODULE BigMachine -----------------------------
(***************************************************************************)
(* Big integers over a history (C05, C06): a machine with registers, each  *)
(* empty or holding an integer.  A step changes the register it assigns,   *)
(* empties those whose value it uses up, and leaves the others alone.      *)
(*                                                                         *)
(* A recorded step is <<op, form, dst, a, b, extra, outcome, diff, counts, *)
(* unread>>: diff lists the registers that read differently after the step *)
(* than before it (unless unread = 1), and counts is what the store says,  *)
(* <<per register <<slot, references>>, references to all slots>>.         *)
(*                                                                         *)
(* Several threads, each with its own registers, are several such machines *)
(* that do not know of each other: what one may do does not depend on the  *)
(* others.                                                                 *)
(***************************************************************************)
EXTENDS Big, FiniteSets

None == <<"none">>
Empty(n) == [r \in 1..n |-> None]

\* the registers whose value the step uses up
Used(op, f, a, b) ==
  IF op \in {"drop", "move"} THEN {a}
  ELSE CASE f = "oo" -> {a, b}
         [] f \in {"or", "o", "op"} -> {a}
         [] f \in {"ro", "ao"} -> {b}
         [] OTHER -> {}

\* what reads as v can be the result of op
Result(op, x, y, extra, v) ==
  CASE op = "add" -> v = Add(x, y)
    [] op = "sub" -> v = Sub(x, y)
    [] op = "mul" -> v = Mul(x, y)
    [] op = "div" -> DivOk(x, y, v, Sub(x, Mul(v, y)))
    [] op = "rem" -> DivOk(x, y, extra, v)        \* extra: the quotient
    [] op = "and" -> v = ZAnd(x, y)
    [] op = "or" -> v = ZOr(x, y)
    [] op = "xor" -> v = ZXor(x, y)
    [] op = "shl" -> v = Shl(x, Dig(y[2], 1))
    [] op = "shr" -> v = ShrFloor(x, Dig(y[2], 1))
    [] op = "neg" -> v = Neg(x)
    [] op = "not" -> v = ZNot(x)
    [] op = "abs" -> v = Abs(x)
    [] op = "pow" -> v = Pow(x, extra)
    [] OTHER -> FALSE

Patch(regs, diff) == FoldLeft(LAMBDA rs, d : [rs EXCEPT ![d[1]] = d[2]], regs, diff)

\* registers after the step if it is allowed (a set of one), the empty set otherwise
After(regs, st) ==
  LET op == st[1]
      f == st[2]
      d == st[3]
      a == st[4]
      b == st[5]
      now == Patch(regs, st[8])
      rest == [r \in DOMAIN regs |-> IF r \in Used(op, f, a, b) THEN None ELSE regs[r]]
      Is(want) == IF st[10] = 1 THEN {want} ELSE IF now = want THEN {now} ELSE {}
  IN IF st[7] = "panic"
     THEN IF op \in {"div", "rem"} /\ IsZero(IF f \in {"op", "ap"} THEN st[6] ELSE regs[b]) THEN Is(rest) ELSE {}
     ELSE CASE op = "new" -> Is([regs EXCEPT ![d] = st[6]])
            [] op = "clone" -> Is([regs EXCEPT ![d] = regs[a]])
            [] op = "move" -> Is([rest EXCEPT ![d] = regs[a]])
            [] op = "take" -> Is([regs EXCEPT ![d] = regs[a], ![a] = Z0])
            [] op = "swap" -> Is([regs EXCEPT ![a] = regs[b], ![b] = regs[a]])
            [] op = "drop" -> Is(rest)
            [] op = "peek" -> Is(regs)
            [] op = "look" -> LET k == Cmp(regs[a], regs[b])
                              IN IF st[6] = <<k, IF k = 0 THEN 1 ELSE 0, 1>> THEN Is(regs) ELSE {}
            [] OTHER -> LET y == CASE f \in {"op", "ap"} -> st[6]
                                   [] f \in {"o", "r"} -> Z0
                                   [] OTHER -> regs[b]
                        IN IF /\ now[d] # None
                              /\ Result(op, regs[a], y, st[6], now[d])
                              /\ \A r \in DOMAIN regs \ {d} : now[r] = rest[r]
                              /\ ~(op \in {"div", "rem"} /\ IsZero(y))
                           THEN {now} ELSE {}

\* slots: <<slot, references>> of each value alive (slot -1: not in the store); total: all references
Counted(slots, total) ==
  LET S == {r \in DOMAIN slots : slots[r][1] >= 0}
  IN /\ \A r \in S : slots[r][2] = Cardinality({q \in S : slots[q][1] = slots[r][1]})
     /\ total = Cardinality(S)
CountsOk(c) == c = <<>> \/ Counted(c[1], c[2])

\* states: <<TRUE, registers>> as long as all went well
Do(s, st) == IF ~s[1] THEN s
             ELSE IF Len(st) # 10 THEN <<FALSE, s[2]>>
             ELSE LET n == After(s[2], st)
                  IN IF n # {} /\ CountsOk(st[9]) THEN <<TRUE, CHOOSE x \in n : TRUE>> ELSE <<FALSE, s[2]>>
Run(regs, steps) == FoldLeft(Do, <<TRUE, regs>>, steps)

\* <<"hist", registers, steps>>
HistoryOk(c) == LET e == Run(Empty(c[2]), c[3])
                IN e[1] /\ e[2] = Empty(c[2])        \* every history ends with everything dropped

\* <<"par", registers, shared values, steps of each thread, <<slots, held, after>>>>
ParOk(c) ==
  /\ \A t \in DOMAIN c[4] : Run(Empty(c[2]) \o c[3], c[4][t])[1]
  /\ Counted(c[5][1], c[5][2])
  /\ c[5][3] = 0

\* <<"bulk", values, <<all, clones, slots, step, half, clones, slots, clones, references>>>>: each value held
\* once, every fourth cloned; then every step-th of the originals dropped, then all, then the clones
BulkOk(c) ==
  LET v == c[2]
      o == c[3]
      Cl(k) == k % 4 = 2
      Gone(k) == (k - 1) % o[4] = 0
      clones == [k \in DOMAIN v |-> IF Cl(k) THEN v[k] ELSE None]
      \* <<slot, references>> per value held: a slot of k references is held by k values
      Refd(sl) == LET pos == {i \in DOMAIN sl : sl[i][1] >= 0}
                  IN /\ \A i \in pos : sl[i][2] \in 1..2
                     /\ 2 * Cardinality({sl[i][1] : i \in pos})
                          = 2 * Cardinality({i \in pos : sl[i][2] = 1}) + Cardinality({i \in pos : sl[i][2] = 2})
  IN /\ Len(o) = 9
     /\ o[1] = v /\ o[2] = clones /\ o[6] = clones /\ o[8] = clones
     /\ o[5] = [k \in DOMAIN v |-> IF Gone(k) THEN None ELSE v[k]]
     /\ Refd(o[3]) /\ Refd(o[7])
     /\ o[9] = 0

MachineOk(c) == IF c[1] = "bulk" THEN BulkOk(c) ELSE IF c[1] = "hist" THEN HistoryOk(c) ELSE ParOk(c)
=============================================================================
