------------------------------ MODULE RealOps ------------------------------
(***************************************************************************)
(* Fixed-point numbers (C21) and rationals (C22).                          *)
(*                                                                         *)
(* A Fixed<T, N> with raw integer a denotes a / 2^N.  A rational is a pair *)
(* <<num, den>>.  T has w bits (w = 0: unbounded), signed iff sg = 1.  The *)
(* recorder only performs operations whose intermediates fit T.            *)
(***************************************************************************)
EXTENDS FixedWidth

\* a rounded to a multiple of 2^n
FloorTo(a, n) == Shl(ShrFloor(a, n), n)
CeilTo(a, n) == Neg(FloorTo(Neg(a), n))
TruncTo(a, n) == IF IsNeg(a) THEN CeilTo(a, n) ELSE FloorTo(a, n)
IsWhole(a, n) == FloorTo(a, n) = a
\* |x| <= |y|
AbsLe(x, y) == NLe(x[2], y[2])
Unit(n) == <<0, NPow2(n)>>

\* q is within one of x / 2^n, and exact if that is whole
MulOk(x, n, q) == IF IsWhole(x, n) THEN Shl(q, n) = x
                  ELSE AbsLe(Sub(Shl(q, n), x), Unit(n))
\* q is within one of x / b, and exact if b divides x: then |x - qb| < |b| and the remainder is zero
DivNear(x, b, q) ==
  LET r == Sub(x, Mul(q, b))
  IN NLt(r[2], b[2])       \* a remainder below |b| that is a multiple of b is zero

\* text "[-]digits.digits"
Dot == 46
DebugOk(a, n, t) ==
  LET b == Body(t)
      k == SelectInSeq(b, LAMBDA ch : ch = Dot)
      whole == SubSeq(b, 1, k - 1)
      frac == SubSeq(b, k + 1, Len(b))
      ds == whole \o frac
      v == NFromDigits([i \in DOMAIN ds |-> DigitOf(ds[i])], 10)
      tens == FoldLeftDomain(LAMBDA acc, i : NMulAdd(acc, 10, 0), <<1>>, frac)
  IN /\ k > 0 /\ Len(frac) >= 1
     /\ DigitsIn(ds, 10)
     /\ Bool(HasMinus(t)) = a[1]
     /\ NShl(v, n) = NMul(a[2], tens)

\* two's complement whole part, N fraction bits
BinaryOk(a, n, w, t) ==
  LET k == SelectInSeq(t, LAMBDA ch : ch = Dot)
      whole == SubSeq(t, 1, k - 1)
      frac == SubSeq(t, k + 1, Len(t))
      D(s) == NFromDigits([i \in DOMAIN s |-> DigitOf(s[i])], 2)
  IN /\ k > 1 /\ Len(frac) = n
     /\ DigitsIn(whole, 2) /\ DigitsIn(frac, 2)
     /\ D(whole) = ToTwos(ShrFloor(a, n), w)
     /\ D(frac) = ToTwos(a, n)

\* <<op, w, sg, N, a, [b,] out>>
FixedOk(c) ==
  LET w == c[2]
      sg == c[3]
      n == c[4]
      a == c[5]
      b == c[6]
      o == c[7]
  IN CASE c[1] = "ftab" -> FTabOk(c)
       [] c[1] = "raw" -> b = Ok1(a)
       [] c[1] = "val" -> b = Ok1(Shl(a, n))
       [] c[1] = "cmp" -> o = Ok1(CmpTuple(a, b))
       [] c[1] = "add" -> o = Ok1(Add(a, b))
       [] c[1] = "sub" -> o = Ok1(Sub(a, b))
       [] c[1] = "mul" -> o[1] = "ok" /\ MulOk(Mul(a, b), n, o[2])
       [] c[1] = "div" -> o[1] = "ok" /\ DivNear(Shl(a, n), b, o[2])
       [] c[1] = "rem" -> o = Ok1(MkInt(a[1], NMod(a[2], b[2])))     \* truncated, as for the raw integers
       [] c[1] = "neg" -> b = Ok1(Neg(a))
       [] c[1] = "abs" -> b = Ok1(Abs(a))
       [] c[1] = "sign" -> b = Ok1(<<Bool(~IsNeg(a)), Bool(IsNeg(a))>>)
       [] c[1] = "ident" -> b = Ok1(<<Bool(IsZero(a)), Bool(a = Unit(n))>>)
       [] c[1] = "floor" -> b = Ok1(FloorTo(a, n))
       [] c[1] = "ceil" -> b = Ok1(CeilTo(a, n))
       [] c[1] = "trunc" -> b = Ok1(TruncTo(a, n))
       [] c[1] = "fract" -> b = Ok1(Sub(a, TruncTo(a, n)))
       [] c[1] = "round" -> /\ b[1] = "ok" /\ IsWhole(b[2], n)
                            /\ AbsLe(Shl(Sub(b[2], a), 1), Unit(n))
       [] c[1] = "debug" -> b[1] = "ok" /\ DebugOk(a, n, b[2])
       [] c[1] = "binary" -> b[1] = "ok" /\ BinaryOk(a, n, w, b[2])
       [] c[1] = "zero" -> b = Ok1(Z0)
       [] c[1] = "one" -> b = Ok1(Unit(n))
       [] c[1] = "min" -> b = Ok1(MinOf(w, sg))
       [] c[1] = "max" -> b = Ok1(MaxOf(w, sg))
       [] c[1] = "minpos" -> b = Ok1(Z1)
       [] c[1] = "maxneg" -> b = Ok1(Neg(Z1))
       [] OTHER -> FALSE

(* --- C22 -------------------------------------------------------------------- *)
\* the answer o is the value num / den (den # 0) in lowest terms with a positive denominator;
\* o[3] are Bezout coefficients witnessing that nothing divides both parts
LowestOf(num, den, o) ==
  /\ o[1] = "ok"
  /\ LET n == o[2][1]
         d == o[2][2]
     IN /\ d[1] = 0 /\ d[2] # <<>>
        /\ Mul(n, den) = Mul(num, d)
        /\ Add(Mul(o[3][1], n), Mul(o[3][2], d)) = Z1

WholeAns(o) == o[1] = "ok" /\ o[2][2] = Z1
\* k <= num / den < k + 1
IsFloor(num, den, k) == Le(Mul(k, den), num) /\ Lt(num, Mul(Add(k, Z1), den))
IsCeil(num, den, k) == Lt(Mul(Sub(k, Z1), den), num) /\ Le(num, Mul(k, den))
IsNeighbour(num, den, k) == IsFloor(num, den, k) \/ IsCeil(num, den, k)

\* "n / d", both decimal; the spaces are left open
NoBlanks(t) == SelectSeq(t, LAMBDA ch : ch # 32)
DecimalOk(a, t) ==
  LET b == IF Len(t) > 0 /\ t[1] = 45 THEN Tail(t) ELSE t
  IN /\ Bool(Len(b) < Len(t)) = a[1]
     /\ Len(b) >= 1 /\ \A i \in DOMAIN b : b[i] \in 48..57
     /\ FromDigits(a[1], [i \in DOMAIN b |-> b[i] - 48], 10) = a
RatioText(a, t) ==
  LET u == NoBlanks(t)
      k == SelectInSeq(u, LAMBDA ch : ch = 47)
  IN /\ k > 1
     /\ DecimalOk(a[1], SubSeq(u, 1, k - 1)) /\ DecimalOk(a[2], SubSeq(u, k + 1, Len(u)))

RatOk(c) ==
  LET w == c[2]
      sg == c[3]
  IN CASE c[1] = "rtab" -> RTabOk(c)
       [] c[1] = "r2tab" -> R2TabOk(c)
       [] c[1] = "new" -> IF IsZero(c[5]) THEN c[6] = None ELSE LowestOf(c[4], c[5], c[6])
       [] c[1] = "isnew" -> c[6] = IF IsZero(c[5]) THEN Ok1(<<0, 0, 1>>)
                                   ELSE Ok1(<<Bool(IsZero(c[4])), Bool(c[4] = c[5]), 1>>)
       [] c[1] = "debug" -> c[5][1] = "ok" /\ RatioText(c[4], c[5][2])
       [] c[1] = "eq" -> LET e == Bool(Mul(c[4][1], c[5][2]) = Mul(c[5][1], c[4][2]))
                         IN c[6] = Ok1(<<e, 1 - e>>)
       [] c[1] = "add" -> LowestOf(Add(Mul(c[4][1], c[5][2]), Mul(c[5][1], c[4][2])), Mul(c[4][2], c[5][2]), c[6])
       [] c[1] = "sub" -> LowestOf(Sub(Mul(c[4][1], c[5][2]), Mul(c[5][1], c[4][2])), Mul(c[4][2], c[5][2]), c[6])
       [] c[1] = "mul" -> LowestOf(Mul(c[4][1], c[5][1]), Mul(c[4][2], c[5][2]), c[6])
       [] c[1] = "div" -> IF IsZero(c[5][1]) THEN c[6] = Panic
                          ELSE LowestOf(Mul(c[4][1], c[5][2]), Mul(c[4][2], c[5][1]), c[6])
       [] c[1] = "neg" -> LowestOf(Neg(c[4][1]), c[4][2], c[5])
       [] c[1] = "abs" -> LowestOf(Abs(c[4][1]), c[4][2], c[5])
       [] c[1] = "sign" -> c[5] = Ok1(<<Bool(~IsNeg(c[4][1])), Bool(IsNeg(c[4][1]))>>)
       [] c[1] = "floor" -> /\ WholeAns(c[5])
                            /\ IF IsNeg(c[4][1]) THEN IsNeighbour(c[4][1], c[4][2], c[5][2][1])
                               ELSE IsFloor(c[4][1], c[4][2], c[5][2][1])
       [] c[1] = "ceil" -> /\ WholeAns(c[5])
                           /\ IF IsNeg(c[4][1]) THEN IsNeighbour(c[4][1], c[4][2], c[5][2][1])
                              ELSE IsCeil(c[4][1], c[4][2], c[5][2][1])
       [] c[1] = "round" -> /\ WholeAns(c[5])
                            /\ AbsLe(Shl(Sub(Mul(c[5][2][1], c[4][2]), c[4][1]), 1), c[4][2])
       [] c[1] = "zero" -> LowestOf(Z0, Z1, c[4])
       [] c[1] = "one" -> LowestOf(Z1, Z1, c[4])
       [] c[1] = "min" -> LowestOf(MinOf(w, sg), Z1, c[4])
       [] c[1] = "max" -> LowestOf(MaxOf(w, sg), Z1, c[4])
       [] OTHER -> FALSE
=============================================================================
