------------------------------ MODULE PrimOps ------------------------------
(***************************************************************************)
(* The numeric traits on the primitive integer types, and the casts        *)
(* between them: a type is its width w and signedness sg.                  *)
(***************************************************************************)
EXTENDS FixedWidth

Fact(n) == FoldLeftDomain(LAMBDA acc, i : NMulAdd(acc, i, 0), <<1>>, [i \in 1..n |-> 0])
Small(x) == IF Len(x[2]) = 0 THEN 0 ELSE IF Len(x[2]) = 1 THEN x[2][1] ELSE x[2][1] + B * x[2][2]
\* a shift amount reduced modulo the width (a power of two)
ModW(x, w) == Small(<<0, ToTwos(x, DLen(w) - 1)>>)
IsAmount(x, w) == x[1] = 0 /\ Len(x[2]) <= 1 /\ Small(x) < w
\* the shifted w-bit pattern
ShlIn(a, k, w, sg) == Wrap(Shl(a, k), w, sg)

Odd(x) == x[2] # <<>> /\ x[2][1] % 2 = 1
TrailingZeros(m, w) == IF m = <<>> THEN w ELSE CHOOSE i \in 0..(w - 1) : NBit(m, i) = 1 /\ NLow(m, i) = <<>>

\* g is the greatest common divisor of a and b: it divides both (witnesses qa, qb) and is a
\* combination of both (witnesses x, y)
GcdOk(a, b, g, x, y, qa, qb) ==
  /\ g[1] = 0
  /\ Mul(g, qa) = a /\ Mul(g, qb) = b
  /\ Add(Mul(x, a), Mul(y, b)) = g

\* <<op, dbg, w, sg, args..., out>>
PrimOk(c) ==
  LET d == c[2]
      w == c[3]
      sg == c[4]
      a == c[5]
      b == c[6]
      o == c[7]
      Over(x) == LET v == Wrap(x, w, sg) IN o = Ok1(<<v, Bool(v # x)>>)
  IN CASE c[1] = "tab" -> TabOk(c)
       [] c[1] = "wadd" -> o = Wrapping(Add(a, b), w, sg)
       [] c[1] = "wsub" -> o = Wrapping(Sub(a, b), w, sg)
       [] c[1] = "wmul" -> o = Wrapping(Mul(a, b), w, sg)
       [] c[1] = "oadd" -> Over(Add(a, b))
       [] c[1] = "osub" -> Over(Sub(a, b))
       [] c[1] = "omul" -> Over(Mul(a, b))
       [] c[1] = "cadd" -> o = Checked(Add(a, b), w, sg)
       [] c[1] = "csub" -> o = Checked(Sub(a, b), w, sg)
       [] c[1] = "cmul" -> o = Checked(Mul(a, b), w, sg)
       [] c[1] = "cdiv" ->
            IF IsZero(b) \/ (sg = 1 /\ a = MinOf(w, sg) /\ b = <<1, <<1>>>>) THEN o = None
            ELSE o[1] = "ok" /\ Trunc(a, b, o[2])
       [] c[1] = "wshl" -> o = Ok1(ShlIn(a, ModW(b, w), w, sg))
       [] c[1] = "wshr" -> o = Ok1(ShrFloor(a, ModW(b, w)))
       [] c[1] = "cshl" -> o = IF IsAmount(b, w) THEN Ok1(ShlIn(a, Small(b), w, sg)) ELSE None
       [] c[1] = "cshr" -> o = IF IsAmount(b, w) THEN Ok1(ShrFloor(a, Small(b))) ELSE None
       [] c[1] = "gcd" ->
            LET wi == c[8]
                top == <<0, NPow2(w - 1)>>
            IN IF IsZero(a) /\ IsZero(b) THEN o = Ok1(Z0)
               \* the one result no signed type can hold
               ELSE IF sg = 1 /\ Abs(a) \in {Z0, top} /\ Abs(b) \in {Z0, top} THEN TRUE
               ELSE o[1] = "ok" /\ GcdOk(a, b, o[2], wi[1], wi[2], wi[3], wi[4])
       [] c[1] = "pow" -> o = Plain(Pow(a, Small(b)), w, sg, d)
       [] c[1] = "pow1" -> o = Ok1(IF IsZero(b) THEN Z1
                                   ELSE IF a[1] = 1 /\ ~Odd(b) THEN Neg(a) ELSE a)
       [] c[1] = "fact" -> b = Plain(<<0, Fact(Small(a))>>, w, sg, d)
       [] c[1] = "wide" ->     \* <<_, _, _, _, a, b, add, <<lo, hi>>>>
            LET x == Add(Mul(a, b), o)
            IN c[8] = Ok1(<<<<0, NLow(x[2], w)>>, <<0, NShr(x[2], w)>>>>)
       [] c[1] = "ident" -> b = Ok1(<<Bool(IsZero(a)), Bool(a = Z1)>>)
       [] c[1] = "isone" -> b = Ok1(Bool(a = Z1))
       [] c[1] = "sign" -> b = Ok1(<<Bool(~IsNeg(a)), Bool(IsNeg(a))>>)
       [] c[1] = "abs" -> b = Plain(Abs(a), w, sg, d)
       [] c[1] = "lz" -> b = Ok1(IntN(w - NBitLen(ToTwos(a, w))))
       [] c[1] = "tz" -> b = Ok1(IntN(TrailingZeros(ToTwos(a, w), w)))
       [] c[1] = "bytes" ->    \* <<from_le, from_be of the reverse, from_ne, to_le, to_be, to_ne>>
            LET v == Wrap(<<0, OfBytes(a)>>, w, sg)
            IN b = Ok1(<<v, v, v, a, Reverse(a), a>>)
       [] c[1] = "zero" -> b = Ok1(Z0)
       [] c[1] \in {"one", "minpos"} -> b = Ok1(Z1)
       [] c[1] = "maxneg" -> b = Ok1(<<1, <<1>>>>)
       [] c[1] = "min" -> b = Ok1(MinOf(w, sg))
       [] c[1] = "max" -> b = Ok1(MaxOf(w, sg))
       [] OTHER -> FALSE

(* --- C20: casts ------------------------------------------------------------ *)
\* the integer a float holds, rounded toward zero
FloatTrunc(f) == MkInt(f[2], IF f[4] >= 0 THEN NShl(f[3], f[4]) ELSE NShr(f[3], -f[4]))
FloatToInt(f, w, sg) ==
  CASE f[1] = "nan" -> Z0
    [] f[1] = "inf" -> IF f[2] = 1 THEN MinOf(w, sg) ELSE MaxOf(w, sg)
    [] OTHER -> Clamp(FloatTrunc(f), w, sg)

\* f is a nearest float of p bits of precision to the integer v
NearestFloat(v, p, f) ==
  LET n == NBitLen(v[2])
      ulp == Max2(n - p, 0)
  IN IF f[1] = "inf"
     THEN \* only f32 can overflow, from within half a unit of 2^128
          p = 24 /\ f[2] = v[1] /\ NLe(NSub(NPow2(128), NPow2(103)), v[2])
     ELSE /\ f[1] = "fin"
          /\ f[3] # <<>> => f[2] = v[1]
          /\ LET x == FloatTrunc(f)[2]
                 d == IF NLe(x, v[2]) THEN NSub(v[2], x) ELSE NSub(x, v[2])
             IN /\ NShl(x, 1074) = (IF f[4] >= -1074 THEN NShl(f[3], f[4] + 1074) ELSE <<>>)
                /\ NLe(NShl(d, 1), IF ulp = 0 THEN <<>> ELSE NPow2(ulp))

\* <<op, from width, from signed, to width, to signed, value, out>>
CastOk(c) ==
  CASE c[1] = "tab" -> TabOk(c)
    [] c[1] = "checked" -> c[7] = Checked(c[6], c[4], c[5])
    [] c[1] = "saturating" -> c[7] = Saturating(c[6], c[4], c[5])
    [] c[1] = "truncating" -> c[7] = Wrapping(c[6], c[4], c[5])
    [] c[1] = "itof" -> c[4][1] = "ok" /\ NearestFloat(c[3], c[2], c[4][2])
    [] c[1] = "ftoi" -> c[5] = Ok1(FloatToInt(c[4], c[2], c[3]))
    [] OTHER -> FALSE
=============================================================================
