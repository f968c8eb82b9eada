----------------------------- MODULE BigIntOps -----------------------------
(***************************************************************************)
(* What every operation of BigInt may answer.  A BigInt denotes an         *)
(* unbounded integer; the operand form (owned, borrowed, in place, mixed   *)
(* with a primitive) is recorded with each case but never changes the      *)
(* answer.                                                                 *)
(***************************************************************************)
EXTENDS Big, Table

Bool(p) == IF p THEN 1 ELSE 0
Ok1(v) == <<"ok", v>>
Panic == <<"panic">>
None == <<"none">>

(* --- C07: exact ring operations ---------------------------------------- *)
ArithOk(c) ==
  CASE c[1] = "tab" -> TabOk(c)
    [] c[1] = "add" -> c[5] = Ok1(Add(c[3], c[4]))
    [] c[1] = "sub" -> c[5] = Ok1(Sub(c[3], c[4]))
    [] c[1] = "mul" -> c[5] = Ok1(Mul(c[3], c[4]))
    [] c[1] = "neg" -> c[4] = Ok1(Neg(c[3]))
    [] c[1] = "abs" -> c[4] = Ok1(Abs(c[3]))
    [] c[1] = "pow" -> c[5] = Ok1(Pow(c[3], c[4]))
    [] OTHER -> FALSE

(* --- C08: truncated division ------------------------------------------- *)
DivRemOk(c) ==
  LET q == c[5][1]
      r == c[5][2]
  IN IF c[1] = "tab" THEN TabOk(c) ELSE
     /\ c[1] = "divrem"
     /\ Len(c[5]) = 2
     /\ IF IsZero(c[4]) THEN q = Panic /\ r = Panic
        ELSE q[1] = "ok" /\ r[1] = "ok" /\ DivOk(c[3], c[4], q[2], r[2])

(* --- C09: order -------------------------------------------------------- *)
CmpOk(c) ==
  CASE c[1] = "tab" -> TabOk(c)
    [] c[1] = "cmp" ->
         LET k == Cmp(c[3], c[4])
         IN c[5] = Ok1(<<k, k, Bool(k = 0), Bool(k # 0), Bool(k < 0), Bool(k <= 0),
                         Bool(k > 0), Bool(k >= 0)>>)
    [] c[1] = "sign" ->
         LET x == c[2]
         IN c[3] = Ok1(<<Bool(IsZero(x)), Bool(x = Z1), Bool(~IsNeg(x)), Bool(IsNeg(x))>>)
    [] c[1] = "zeros" ->
         /\ c[3][1] = "ok"
         /\ \A i \in DOMAIN c[3][2] : c[3][2][i] = <<Z0, 1, 0, 1, 1, 1, 1, 0>>
    [] c[1] = "const" -> c[3] = Ok1(IntN(c[2]))
    [] OTHER -> FALSE

(* --- C10: conversions -------------------------------------------------- *)
\* |m * 2^e - a| * 2^40 <= |a| for the float <<"fin", s, m, e>>
CloseFloat(a, f) ==
  LET k == IF f[4] < 0 THEN -f[4] ELSE 0        \* scale everything by 2^k
      x == NShl(f[3], f[4] + k)
      y == NShl(a[2], k)
      d == IF NLe(x, y) THEN NSub(y, x) ELSE NSub(x, y)
  IN /\ NLe(NShl(d, 40), y)
     /\ x # <<>> => f[2] = a[1]
FloatOk(a, f) ==
  LET n == NBitLen(a[2])
  IN IF n <= 1000 THEN f[1] = "fin" /\ CloseFloat(a, f)
     ELSE IF n <= 1024 THEN f[1] \in {"fin", "inf"} /\ f[2] = a[1] /\ (f[1] = "fin" => f[4] >= 900)
     ELSE f = <<"inf", a[1]>>

ConvOk(c) ==
  CASE c[1] = "tab" -> TabOk(c)
    [] c[1] = "from" -> c[6] = Ok1(c[5])
    [] c[1] = "try" -> c[6] = IF Fits(c[5], c[3], c[4]) THEN Ok1(c[5]) ELSE None
    [] c[1] = "sat" -> c[6] = Ok1(Clamp(c[5], c[3], c[4]))
    [] c[1] = "trunc" -> c[6] = Ok1(Wrap(c[5], c[3], c[4]))
    [] c[1] = "float" -> c[3][1] = "ok" /\ FloatOk(c[2], c[3][2])
    [] OTHER -> FALSE

(* --- C11: text ---------------------------------------------------------- *)
Minus == 45
\* the digit a character code stands for (either case), or -1
DigitOf(ch) == IF ch \in 48..57 THEN ch - 48
               ELSE IF ch \in 97..122 THEN ch - 87
               ELSE IF ch \in 65..90 THEN ch - 55
               ELSE -1
HasMinus(t) == Len(t) > 0 /\ t[1] = Minus
Body(t) == IF HasMinus(t) THEN Tail(t) ELSE t
DigitsIn(t, radix) == \A i \in DOMAIN t : DigitOf(t[i]) \in 0..(radix - 1)
ValueOf(t, radix) == FromDigits(Bool(HasMinus(t)), [i \in DOMAIN Body(t) |-> DigitOf(Body(t)[i])], radix)
NoPad(t) == Len(t) >= 1 /\ (Len(t) = 1 \/ t[1] # 48)
Lower(t) == \A i \in DOMAIN t : t[i] \notin 65..70
Upper(t) == \A i \in DOMAIN t : t[i] \notin 97..102

\* t is a text of a: sign, prefix, then digits
TextOk(a, t, prefix, radix, pad) ==
  LET b == Body(t)
      n == Len(prefix)
      ds == SubSeq(b, n + 1, Len(b))
  IN /\ Bool(HasMinus(t)) = a[1]
     /\ Len(b) > n /\ SubSeq(b, 1, n) = prefix
     /\ DigitsIn(ds, radix)
     /\ pad \/ NoPad(ds)
     /\ NFromDigits([i \in DOMAIN ds |-> DigitOf(ds[i])], radix) = a[2]

FmtOk(kind, a, t) ==
  CASE kind \in {"dec", "debug"} -> TextOk(a, t, <<>>, 10, FALSE)
    [] kind = "lhex" -> TextOk(a, t, <<48, 120>>, 16, FALSE) /\ Lower(t)
    [] kind = "uhex" -> TextOk(a, t, <<48, 120>>, 16, FALSE) /\ Upper(t)
    [] kind = "bin" -> TextOk(a, t, <<48, 98>>, 2, TRUE)
    [] OTHER -> FALSE

ParseOk(radix, t, out) ==
  IF radix <= 36 /\ DigitsIn(Body(t), radix)
  THEN Body(t) = <<>> \/ out = Ok1(ValueOf(t, radix))
  ELSE out = <<"err">>

FormatOk(c) ==
  CASE c[1] = "fmt" -> c[4][1] = "ok" /\ FmtOk(c[2], c[3], c[4][2])
    [] c[1] = "parse" -> ParseOk(c[2], c[3], c[4])
    [] OTHER -> FALSE

(* --- C12: bits and shifts ------------------------------------------------ *)
BitsOk(c) ==
  CASE c[1] = "tab" -> TabOk(c)
    [] c[1] = "and" -> c[5] = Ok1(ZAnd(c[3], c[4]))
    [] c[1] = "or"  -> c[5] = Ok1(ZOr(c[3], c[4]))
    [] c[1] = "xor" -> c[5] = Ok1(ZXor(c[3], c[4]))
    [] c[1] = "not" -> c[4] = Ok1(ZNot(c[3]))
    [] c[1] = "shl" -> c[5] = Ok1(Shl(c[3], c[4]))
    [] c[1] = "shr" -> c[5] = Ok1(ShrFloor(c[3], c[4]))
    \* by more than there are bits: only the sign is left
    [] c[1] = "shrfar" -> c[5] = Ok1(IF IsNeg(c[3]) THEN Neg(Z1) ELSE Z0)
    [] OTHER -> FALSE
=============================================================================
