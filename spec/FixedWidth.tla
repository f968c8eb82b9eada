----------------------------- MODULE FixedWidth ----------------------------
(***************************************************************************)
(* The fixed-width integers U<N> and I<N>: every answer is the exact       *)
(* integer result, mapped into the type by the policy the operation names  *)
(* (checked, saturating, wrapping, or panic / wrap by build configuration).*)
(***************************************************************************)
EXTENDS BigIntOps

\* The policies, for a type of w bits, signed iff sg = 1
Checked(x, w, sg) == IF Fits(x, w, sg) THEN Ok1(x) ELSE None
Saturating(x, w, sg) == Ok1(Clamp(x, w, sg))
Wrapping(x, w, sg) == Ok1(Wrap(x, w, sg))
Plain(x, w, sg, dbg) == IF Fits(x, w, sg) THEN Ok1(x)
                        ELSE IF dbg = 1 THEN Panic ELSE Wrapping(x, w, sg)
CmpTuple(x, y) ==
  LET k == Cmp(x, y)
  IN <<k, k, Bool(k = 0), Bool(k # 0), Bool(k < 0), Bool(k <= 0), Bool(k > 0), Bool(k >= 0)>>

(* --- C13 ----------------------------------------------------------------- *)
\* <<op, dbg, w, a, b, out>>
UArithOk(c) ==
  LET d == c[2]
      w == c[3]
      a == c[4]
      b == c[5]
      o == c[6]
  IN CASE c[1] = "tab" -> TabOk(c)
       [] c[1] = "cadd" -> o = Checked(Add(a, b), w, 0)
       [] c[1] = "csub" -> o = Checked(Sub(a, b), w, 0)
       [] c[1] = "cmul" -> o = Checked(Mul(a, b), w, 0)
       [] c[1] = "sadd" -> o = Saturating(Add(a, b), w, 0)
       [] c[1] = "ssub" -> o = Saturating(Sub(a, b), w, 0)
       [] c[1] = "smul" -> o = Saturating(Mul(a, b), w, 0)
       [] c[1] = "wadd" -> o = Wrapping(Add(a, b), w, 0)
       [] c[1] = "wsub" -> o = Wrapping(Sub(a, b), w, 0)
       [] c[1] = "add" -> o = Plain(Add(a, b), w, 0, d)
       [] c[1] = "sub" -> o = Plain(Sub(a, b), w, 0, d)
       [] c[1] = "mul" -> o = Plain(Mul(a, b), w, 0, d)
       [] c[1] = "divrem" ->     \* <<a / b, a % b, checked a / b>>
            IF IsZero(b) THEN o = <<Panic, Panic, Ok1(None)>>
            ELSE /\ o[1][1] = "ok" /\ o[2][1] = "ok"
                 /\ DivOk(a, b, o[1][2], o[2][2])
                 /\ o[3] = Ok1(o[1])
       [] OTHER -> FALSE

(* --- C14 ----------------------------------------------------------------- *)
\* bytes, least significant first, as a natural
OfBytes(bs) == FoldLeft(LAMBDA acc, b : NMulAdd(acc, 256, b), <<>>, Reverse(bs))

ShiftOk(c, v) == IF c[5] <= c[3] THEN c[5] = c[3] \/ c[6] = Ok1(v)
                 ELSE c[2] = 1 => c[6] = Panic

URestOk(c) ==
  CASE c[1] = "tab" -> TabOk(c)
    [] c[1] = "cmp" -> c[5] = Ok1(CmpTuple(c[3], c[4]))
    [] c[1] = "and" -> c[5] = Ok1(<<0, NAnd(c[3][2], c[4][2])>>)
    [] c[1] = "or"  -> c[5] = Ok1(<<0, NOr(c[3][2], c[4][2])>>)
    [] c[1] = "xor" -> c[5] = Ok1(<<0, NXor(c[3][2], c[4][2])>>)
    [] c[1] = "not" -> c[4] = Ok1(Sub(MaxOf(c[2], 0), c[3]))
    [] c[1] = "shl" -> ShiftOk(c, Wrap(Shl(c[4], c[5]), c[3], 0))
    [] c[1] = "shr" -> ShiftOk(c, ShrFloor(c[4], c[5]))
    [] c[1] = "le" -> c[4] = Ok1(<<<<0, OfBytes(c[3])>>, c[3]>>)
    [] c[1] = "be" -> c[4] = Ok1(<<<<0, OfBytes(Reverse(c[3]))>>, c[3]>>)
    [] c[1] = "fmt" -> c[4][1] = "ok" /\ FmtOk("dec", c[3], c[4][2])
    [] c[1] = "sign" -> c[4] = Ok1(<<Bool(IsZero(c[3])), Bool(c[3] = Z1)>>)
    [] c[1] = "cto" -> c[5] = Checked(c[4], c[3], 0)
    [] c[1] = "sto" -> c[5] = Saturating(c[4], c[3], 0)
    [] c[1] = "tto" -> c[5] = Wrapping(c[4], c[3], 0)
    [] c[1] = "cfrom" -> c[5] = Checked(c[4], c[3], 0)
    [] c[1] = "asfrom" -> c[5] = Ok1(<<c[4], c[4]>>)
    [] c[1] = "pow" -> c[6] = Plain(Pow(c[4], c[5]), c[3], 0, c[2])
    [] c[1] = "pow01" -> c[5] = Ok1(IF IsZero(c[4]) THEN Z1 ELSE IntN(c[3]))
    [] c[1] = "const" ->
         c[4] = Ok1(CASE c[2] = "max" -> MaxOf(c[3], 0)
                      [] c[2] = "one" -> Z1
                      [] OTHER -> Z0)
    [] OTHER -> FALSE

(* --- C15 ----------------------------------------------------------------- *)
\* <<op, w, a, b, out>>
IOk(c) ==
  LET w == c[2]
      a == c[3]
      Un(v) == c[4] = Ok1(Wrap(v, w, 1))
      Bin(v) == c[5] = Ok1(Wrap(v, w, 1))
  IN CASE c[1] = "tab" -> TabOk(c)
       [] c[1] = "add" -> Bin(Add(a, c[4]))
       [] c[1] = "sub" -> Bin(Sub(a, c[4]))
       [] c[1] = "mul" -> Bin(Mul(a, c[4]))
       [] c[1] = "and" -> Bin(ZAnd(a, c[4]))
       [] c[1] = "or"  -> Bin(ZOr(a, c[4]))
       [] c[1] = "xor" -> Bin(ZXor(a, c[4]))
       [] c[1] = "neg" -> Un(Neg(a))
       [] c[1] = "not" -> Un(ZNot(a))
       [] c[1] = "abs" -> Un(Abs(a))
       [] c[1] = "cmp" -> c[5] = Ok1(CmpTuple(a, c[4]))
       [] c[1] = "sign" -> c[4] = Ok1(<<Bool(IsZero(a)), Bool(a = Z1), Bool(~IsNeg(a)), Bool(IsNeg(a))>>)
       [] c[1] = "divrem" ->
            LET b == c[4]
                q == c[5][1]
                r == c[5][2]
            IN IF IsZero(b) THEN q = Panic /\ r = Panic
               ELSE /\ q[1] = "ok" /\ r[1] = "ok"
                    /\ IF a = MinOf(w, 1) /\ b = <<1, <<1>>>>
                       THEN q[2] = a /\ r[2] = Z0
                       ELSE DivOk(a, b, q[2], r[2])
       [] c[1] = "const" ->
            c[4] = Ok1(CASE c[2] = "min" -> MinOf(c[3], 1)
                         [] c[2] = "max" -> MaxOf(c[3], 1)
                         [] c[2] \in {"one", "minpos"} -> Z1
                         [] c[2] = "maxneg" -> <<1, <<1>>>>
                         [] OTHER -> Z0)
       [] OTHER -> FALSE
=============================================================================
