------------------------------ MODULE FloatOps ------------------------------
(***************************************************************************)
(* The numeric traits on f32 and f64, and the bytes of N-byte floats (C27).*)
(*                                                                         *)
(* A float is <<"nan">>, <<"inf", sign>> or <<"fin", sign, m, e>>, the     *)
(* number (-1)^sign * m * 2^e.  All numbers below are exact: a dyadic is   *)
(* <<i, e>> with i an integer of module Big.  p is the precision (24, 53). *)
(* Where the answer is irrational, it is compared up to a relative error   *)
(* far below what a confusion of functions causes.                         *)
(***************************************************************************)
EXTENDS Big

FOk(x) == <<"ok", x>>
FBool(b) == IF b THEN 1 ELSE 0
IsFin(f) == f[1] = "fin"
IsNan(f) == f[1] = "nan"
IsInf(f) == f[1] = "inf"
D(f) == <<MkInt(f[2], f[3]), f[4]>>
DInt(k) == <<IntN(k), 0>>

\* both as integers over the smaller exponent
At(x, e) == MkInt(x[1][1], NShl(x[1][2], x[2] - e))
DCmp(x, y) == LET e == Min2(x[2], y[2]) IN Cmp(At(x, e), At(y, e))
DAdd(x, y) == LET e == Min2(x[2], y[2]) IN <<Add(At(x, e), At(y, e)), e>>
DNeg(x) == <<Neg(x[1]), x[2]>>
DSub(x, y) == DAdd(x, DNeg(y))
DMul(x, y) == <<Mul(x[1], y[1]), x[2] + y[2]>>
DAbs(x) == <<Abs(x[1]), x[2]>>
DScale(x, k) == <<x[1], x[2] + k>>
DPow(x, k) == <<Pow(x[1], k), x[2] * k>>
DLe(x, y) == DCmp(x, y) # 1
DLt(x, y) == DCmp(x, y) = -1
DEq(x, y) == DCmp(x, y) = 0
DZero(x) == x[1][2] = <<>>
DIsInt(x) == x[2] >= 0 \/ NLow(x[1][2], -x[2]) = <<>>
One == DInt(1)

\* |x - y| <= |y| / 2^k
Near(x, y, k) == DLe(DAbs(DSub(x, y)), DScale(DAbs(y), -k))
\* |x - y| <= 2^-k
Close(x, y, k) == DLe(DAbs(DSub(x, y)), DScale(One, -k))

SameFloat(f, g) == IF IsFin(f) THEN IsFin(g) /\ f[2] = g[2] /\ DEq(D(f), D(g)) ELSE f = g

FloorOk(x, r) == DIsInt(r) /\ DLe(r, x) /\ DLt(x, DAdd(r, One))
CeilOk(x, r) == FloorOk(DNeg(x), DNeg(r))
TruncOk(x, r) == IF IsNeg(x[1]) THEN CeilOk(x, r) ELSE FloorOk(x, r)
\* nearest, half away from zero
RoundOk(x, r) ==
  /\ DIsInt(r)
  /\ LET d == DSub(DAbs(x), DAbs(r)) IN DLe(DScale(DInt(-1), -1), d) /\ DLt(d, DScale(One, -1))
  /\ DZero(r) \/ r[1][1] = x[1][1]

Finite1(op, x, r) ==
  CASE op = "floor" -> FloorOk(x, r)
    [] op = "ceil" -> CeilOk(x, r)
    [] op = "trunc" -> TruncOk(x, r)
    [] op = "round" -> RoundOk(x, r)
    [] op = "fract" -> TruncOk(x, DSub(x, r)) /\ DLt(DAbs(r), One)
    [] op = "abs" -> DEq(r, DAbs(x))
    [] OTHER -> FALSE

\* <<op, p, x, out>>
UnaryOk(c) ==
  LET x == c[3]
      o == c[4]
  IN /\ o[1] = "ok"
     /\ LET r == o[2]
        IN CASE IsNan(x) -> IsNan(r)
             [] IsInf(x) -> IF c[1] = "fract" THEN IsNan(r) ELSE r = <<"inf", IF c[1] = "abs" THEN 0 ELSE x[2]>>
             [] OTHER -> IsFin(r) /\ Finite1(c[1], D(x), D(r))

SqrtOk(p, x, r) ==
  CASE IsNan(x) -> IsNan(r)
    [] IsInf(x) -> IF x[2] = 0 THEN r = x ELSE IsNan(r)
    [] DZero(D(x)) -> IsFin(r) /\ DZero(D(r))
    [] x[2] = 1 -> IsNan(r)
    [] OTHER -> IsFin(r) /\ r[2] = 0 /\ Near(DMul(D(r), D(r)), D(x), p - 2)

\* r = x ^ (k / n) for x > 0: r^n = x^k
PowerOk(p, x, k, n, r) ==
  /\ IsFin(r) /\ r[2] = 0
  /\ LET l == DPow(D(r), n)
     IN IF k >= 0 THEN Near(l, DPow(D(x), k), p - 8) ELSE Near(DMul(l, DPow(D(x), -k)), One, p - 8)

\* r = log_b x, b an integer above 1, x > 0: b^j <= x < b^(j+1) bounds it, and powers are exact
RECURSIVE LogFloor(_, _, _)
LogFloor(x, b, j) == IF DLt(x, DPow(b, j + 1)) THEN j ELSE LogFloor(x, b, j + 1)
LogUp(p, x, b, r) ==      \* x >= 1
  LET j == LogFloor(x, b, 0)
  IN IF DEq(x, DPow(b, j)) THEN Close(r, DInt(j), p - 9)
     ELSE /\ DLe(DSub(DInt(j), DScale(One, 9 - p)), r)
          /\ DLe(r, DAdd(DInt(j + 1), DScale(One, 9 - p)))

\* Taylor polynomials of sin and cos with integer coefficients: 9! sin x, 8! cos x up to x^9, x^8
Poly(x, cs) == FoldLeft(LAMBDA acc, k : DAdd(DMul(acc, DMul(x, x)), DInt(k)), DInt(0), cs)
SinT(x) == DMul(x, Poly(x, <<1, -72, 3024, -60480, 362880>>))
CosT(x) == Poly(x, <<1, -56, 1680, -20160, 40320>>)
\* <<"trig", p, x, <<sin, cos, tan, csc, sec, cot>>>> for finite x
TrigOk(p, x, f) ==
  LET v == [i \in 1..6 |-> D(f[i])]
      k == p - 8
  IN /\ \A i \in 1..3 : IsFin(f[i])
     /\ Near(DAdd(DMul(v[1], v[1]), DMul(v[2], v[2])), One, k)
     /\ DLe(DAbs(x), One) =>
          \* the next terms are below x^11 / 110 and x^10 / 90; the rest is for rounding
          /\ DLe(DAbs(DSub(DMul(DInt(362880), v[1]), SinT(x))), DScale(DAbs(x), -3))
          /\ DLe(DAbs(DSub(DMul(DInt(40320), v[2]), CosT(x))), DScale(One, -3))
     /\ DZero(v[2]) \/ Near(DMul(v[3], v[2]), v[1], k)
     /\ IF DZero(v[1]) THEN ~IsFin(f[4]) ELSE IsFin(f[4]) => Near(DMul(v[4], v[1]), One, k)
     /\ IF DZero(v[2]) THEN ~IsFin(f[5]) ELSE IsFin(f[5]) /\ Near(DMul(v[5], v[2]), One, k)
     /\ IF DZero(v[3]) THEN ~IsFin(f[6]) ELSE IsFin(f[6]) => Near(DMul(v[6], v[3]), One, k)

\* sign, zero and one tests: <<is_positive, is_negative, is_zero, is_one>>
Tests(x) ==
  CASE IsNan(x) -> <<0, 0, 0, 0>>
    [] IsInf(x) -> <<1 - x[2], x[2], 0, 0>>
    [] OTHER -> LET d == D(x) IN <<FBool(~IsNeg(d[1])), FBool(IsNeg(d[1])), FBool(DZero(d)), FBool(DEq(d, One))>>

MaxFloat(p) == IF p = 53 THEN <<<<0, NSub(NPow2(53), <<1>>)>>, 971>> ELSE <<<<0, NSub(NPow2(24), <<1>>)>>, 104>>
MinNormal(p) == DScale(One, IF p = 53 THEN -1022 ELSE -126)
Is(o, x) == o[1] = "ok" /\ IsFin(o[2]) /\ DEq(D(o[2]), x)

NatOfBytes(a) == LET F[i \in 0..Len(a)] == IF i = 0 THEN <<>> ELSE NAdd(F[i - 1], NShl(NN(a[i]), 8 * (i - 1)))
                 IN F[Len(a)]
\* the float with these bits
OfBits(m, p) ==
  LET w == IF p = 53 THEN 64 ELSE 32
      fb == p - 1
      fr == NLow(m, fb)
      ex == LET e == NLow(NShr(m, fb), w - p) IN IF e = <<>> THEN 0 ELSE e[1]
      s == NBit(m, w - 1)
      top == 2 ^ (w - p) - 1
      bias == (top \div 2) + fb
  IN IF ex = top THEN (IF fr = <<>> THEN <<"inf", s>> ELSE <<"nan">>)
     ELSE IF ex = 0 THEN <<"fin", s, fr, 1 - bias>>
     ELSE <<"fin", s, NAdd(fr, NPow2(fb)), ex - bias>>

Rev(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]

FloatOk(c) ==
  LET p == c[2]
  IN CASE c[1] \in {"floor", "ceil", "trunc", "round", "fract", "abs"} -> UnaryOk(c)
       [] c[1] = "sqrt" -> c[4][1] = "ok" /\ SqrtOk(p, c[3], c[4][2])
       \* <<_, p, x, k, n, out>>
       [] c[1] = "power" -> c[6][1] = "ok" /\ PowerOk(p, c[3], c[4], c[5], c[6][2])
       \* powers of negative bases: <<_, p, x, k, out>>
       [] c[1] = "npow" -> c[5][1] = "ok" /\ IsFin(c[5][2]) /\ Near(D(c[5][2]), DPow(D(c[3]), c[4]), p - 8)
       \* <<_, p, x, base, 1 if inverted, out>>: log_b x, or log_b of 1 / x with x a power of two
       [] c[1] = "log" -> /\ c[6][1] = "ok" /\ IsFin(c[6][2])
                          /\ LogUp(p, D(c[3]), D(c[4]), IF c[5] = 1 THEN DNeg(D(c[6][2])) ELSE D(c[6][2]))
       [] c[1] = "trig" -> c[4][1] = "ok" /\ TrigOk(p, D(c[3]), c[4][2])
       [] c[1] = "tests" -> c[4] = FOk(Tests(c[3]))
       [] c[1] = "zero" -> Is(c[3], DInt(0))
       [] c[1] = "one" -> Is(c[3], One)
       [] c[1] = "max" -> Is(c[3], MaxFloat(p))
       [] c[1] = "min" -> Is(c[3], DNeg(MaxFloat(p)))
       [] c[1] = "minpos" -> Is(c[3], MinNormal(p))
       [] c[1] = "maxneg" -> Is(c[3], DNeg(MinNormal(p)))
       \* <<_, p, bytes, <<from_le, from_be of the reverse, from_ne, to_le, to_be, to_ne>>>> (to_* of from_le)
       [] c[1] = "bytes" ->
            /\ c[4][1] = "ok"
            /\ LET f == OfBits(NatOfBytes(c[3]), p)
                   o == c[4][2]
               IN /\ \A i \in 1..3 : SameFloat(f, o[i])
                  /\ o[4] = c[3] /\ o[5] = Rev(c[3]) /\ o[6] = c[3]
       \* F<N>: <<_, n, bytes, <<le of le, be of le, ne of le, le of be, le of ne, bits of le, le of bits>>>>
       [] c[1] = "F" ->
            /\ c[4][1] = "ok" /\ Len(c[3]) = c[2]
            /\ c[4][2] = <<c[3], Rev(c[3]), c[3], Rev(c[3]), c[3], NatOfBytes(c[3]), c[3]>>
       \* Real's provided roots on exact rationals: <<_, k, k-th power, root>>
       [] c[1] = "root" -> /\ c[4][1] = "ok"
                           /\ LET r == c[4][2]
                              IN /\ ~IsNeg(r[1]) /\ r[2][1] = 0 /\ ~IsZero(r[2])
                                 /\ Mul(Pow(r[1], c[2]), c[3][2]) = Mul(Pow(r[2], c[2]), c[3][1])
       \* ConvertBytes' provided native order, on a little-endian machine: <<_, n, bytes, <<how, what, back>>>>
       [] c[1] = "native" -> c[4] = FOk(<<"le", c[3], c[3]>>)
       [] OTHER -> FALSE
=============================================================================
