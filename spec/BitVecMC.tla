------------------------------ MODULE BitVecMC -----------------------------
(***************************************************************************)
(* BitVec as a state machine over two-bit elements, explored exhaustively: *)
(* the specification itself has the properties C18 states.                 *)
(***************************************************************************)
EXTENDS BitVec, FiniteSets
CONSTANTS W, MaxLen
VARIABLES v, last            \* the elements; the last operation <<op, arg, answer>> and the state before it

Elem == {NN(k) : k \in 0..(2 ^ W - 1)}
Idx == 0..MaxLen
BIdx == 0..(MaxLen * W)
Calls == (({"get", "get_opt"} \X Idx) \cup ({"get_bit", "get_bit_opt"} \X BIdx)
          \cup ({"set", "set_opt", "set_ignore", "extend", "set_push"} \X (Idx \X Elem))
          \cup ({"set_bit", "set_bit_opt", "set_bit_ignore", "set_bit_push"} \X (BIdx \X {0, 1}))
          \cup ({"len", "bit_len", "is_empty", "bits"} \X {0}))

Init == v = <<>> /\ last = <<"init", 0, Panic, <<>>>>
Next == \E c \in Calls :
          LET d == Do(v, W, c[1], c[2])
          IN /\ Len(d[2]) <= MaxLen
             /\ v' = d[2]
             /\ last' = <<c[1], c[2], d[1], v>>

TypeOk == \A i \in DOMAIN v : v[i] \in Elem
Bits(x) == [i \in 1..BitLenOf(x, W) |-> BitOf(x, W, i - 1)]
Failed == Len(last[3]) = 1 \/ (last[1] \in {"get_opt", "set_opt", "get_bit_opt", "set_bit_opt"} /\ last[3][2] = None)
Setters == {"set_bit", "set_bit_opt", "set_bit_ignore", "set_bit_push"}
\* a bit is where it was put, and no other bit changed; growth adds zero bits only
SetOnlyThat ==
  last[1] \in Setters /\ ~Failed /\ last[2][1] < BitLenOf(v, W) =>
    LET old == Bits(last[4])
        new == Bits(v)
    IN \A i \in DOMAIN new :
         new[i] = IF i = last[2][1] + 1 THEN last[2][2]
                  ELSE IF i <= Len(old) THEN old[i] ELSE 0
\* nothing ever shrinks, and failed or reading operations change nothing
NeverShrinks == Len(v) >= Len(last[4])
ReadsKeep == last[1] \in {"get", "get_opt", "get_bit", "get_bit_opt", "len", "bit_len", "is_empty", "bits"}
             \/ Failed => v = last[4]
\* packing and unpacking are inverse
Packs == /\ NBitLen(ValueOfElems(v, W)) <= BitLenOf(v, W)
         /\ \A i \in 0..(BitLenOf(v, W) - 1) : NBit(ValueOfElems(v, W), i) = BitOf(v, W, i)
         /\ v # <<>> => ValueOfElems(Shrunk(v), W) = ValueOfElems(v, W)
=============================================================================
