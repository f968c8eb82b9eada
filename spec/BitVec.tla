------------------------------- MODULE BitVec ------------------------------
(***************************************************************************)
(* A growable vector of w-bit elements with positional bit access.  The    *)
(* state is the sequence of elements v; Do(v, w, op, arg) is the pair      *)
(* <<answer, state afterwards>> of one operation, so a history is allowed  *)
(* exactly if every recorded answer and state is the one Do gives.         *)
(* Indexes are the implementation's, counted from zero.                    *)
(***************************************************************************)
EXTENDS BigIntOps

BitLenOf(v, w) == Len(v) * w
\* bit i of the vector is bit i % w of element i / w
BitOf(v, w, i) == NBit(v[(i \div w) + 1], i % w)

WithBit(e, k, b) == IF NBit(e, k) = b THEN e
                    ELSE IF b = 1 THEN NOr(e, NPow2(k)) ELSE NXor(e, NPow2(k))
Put(v, i, e) == [v EXCEPT ![i + 1] = e]
PutBit(v, w, i, b) == Put(v, i \div w, WithBit(v[(i \div w) + 1], i % w, b))
Grow(v, n, e) == v \o [i \in 1..Max2(0, n - Len(v)) |-> e]

Some(x) == <<"some", x>>

Do(v, w, op, arg) ==
  LET n == Len(v)
      nb == n * w
  IN CASE op = "get" -> IF arg < n THEN <<Ok1(v[arg + 1]), v>> ELSE <<Panic, v>>
       [] op = "get_opt" -> <<Ok1(IF arg < n THEN Some(v[arg + 1]) ELSE None), v>>
       [] op = "get_bit" -> IF arg < nb THEN <<Ok1(BitOf(v, w, arg)), v>> ELSE <<Panic, v>>
       [] op = "get_bit_opt" -> <<Ok1(IF arg < nb THEN Some(BitOf(v, w, arg)) ELSE None), v>>
       [] op = "set" -> IF arg[1] < n THEN <<Ok1(0), Put(v, arg[1], arg[2])>> ELSE <<Panic, v>>
       [] op = "set_opt" -> IF arg[1] < n THEN <<Ok1(Some(0)), Put(v, arg[1], arg[2])>>
                            ELSE <<Ok1(None), v>>
       [] op = "set_ignore" -> <<Ok1(0), IF arg[1] < n THEN Put(v, arg[1], arg[2]) ELSE v>>
       [] op = "set_bit" -> IF arg[1] < nb THEN <<Ok1(0), PutBit(v, w, arg[1], arg[2])>> ELSE <<Panic, v>>
       [] op = "set_bit_opt" -> IF arg[1] < nb THEN <<Ok1(Some(0)), PutBit(v, w, arg[1], arg[2])>>
                                ELSE <<Ok1(None), v>>
       [] op = "set_bit_ignore" -> <<Ok1(0), IF arg[1] < nb THEN PutBit(v, w, arg[1], arg[2]) ELSE v>>
       [] op = "extend" -> <<Ok1(0), Grow(v, arg[1], arg[2])>>
       [] op = "set_push" -> <<Ok1(0), Put(Grow(v, arg[1] + 1, <<>>), arg[1], arg[2])>>
       [] op = "set_bit_push" ->
            <<Ok1(0), PutBit(Grow(v, (arg[1] \div w) + 1, <<>>), w, arg[1], arg[2])>>
       [] op = "len" -> <<Ok1(n), v>>
       [] op = "bit_len" -> <<Ok1(nb), v>>
       [] op = "is_empty" -> <<Ok1(Bool(n = 0)), v>>
       \* every bit once, in order, with the exact remaining length before each
       [] op = "bits" -> <<Ok1(<<[i \in 1..nb |-> <<BitOf(v, w, i - 1), nb - i + 1, 1>>], 1>>), v>>

\* a recorded history <<"hist", type, w, initial elements, <<<<op, arg, answer, elements>>, ...>>>>
HistOk(w, v0, h) ==
  FoldLeft(LAMBDA acc, e : IF acc[1] /\ Do(acc[2], w, e[1], e[2]) = <<e[3], e[4]>>
                           THEN <<TRUE, e[4]>> ELSE <<FALSE, acc[2]>>,
           <<TRUE, v0>>, h)[1]

-----------------------------------------------------------------------------
(* Packing *)
ValueOfElems(es, w) == FoldLeft(LAMBDA acc, e : NAdd(NShl(acc, w), e), <<>>, Reverse(es))
ElemsFit(es, w) == \A i \in DOMAIN es : NBitLen(es[i]) <= w

\* the elements without the high zeros, but at least one
Shrunk(es) == LET k == SelectLastInSeq(es, LAMBDA e : e # <<>>)
              IN SubSeq(es, 1, Min2(Max2(k, 1), Len(es)))   \* nothing of nothing

BitVecOk(c) ==
  CASE c[1] = "hist" -> HistOk(c[3], c[4], c[5])
    [] c[1] = "split" ->     \* <<_, integer width, element width, value, out>>
         /\ c[5][1] = "ok"
         /\ ElemsFit(c[5][2], c[3])
         /\ ValueOfElems(c[5][2], c[3]) = c[4][2]
    [] c[1] = "join" ->      \* <<_, element width, integer width, elements, out>>
         LET v == <<0, ValueOfElems(c[4], c[2])>>
         IN c[5] = IF Fits(v, c[3], 0) THEN Ok1(v) ELSE None
    [] c[1] = "reverse" -> c[3] = Ok1(Reverse(c[2]))
    [] c[1] = "shrink" -> c[3] = Ok1(Shrunk(c[2]))
    [] OTHER -> FALSE
=============================================================================
