-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Arbitrary-precision integers as TLA+ values.                            *)
(*                                                                         *)
(* TLC's own integers are 32 bits wide, so every number the implementation *)
(* handles is written here as a sequence of base-4096 digits, least        *)
(* significant first, without a most-significant zero digit: zero is <<>>. *)
(* An integer is a pair <<s, m>>, s = 1 for negative, m its magnitude;     *)
(* zero is <<0, <<>>>>.  Every operator below is the mathematical          *)
(* definition (schoolbook), independent of how the implementation works.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

B == 4096          \* the base
BBits == 12        \* bits per digit

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

Norm(a) == SubSeq(a, 1, SelectLastInSeq(a, LAMBDA d : d # 0))

IsNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(B - 1)
            /\ Len(a) = 0 \/ a[Len(a)] # 0

\* Normalise columns of non-negative sums (each < 2^31 - carry)
Carry(f) ==
  LET st == FoldLeft(LAMBDA acc, d : LET s == acc[2] + d
                                     IN <<Append(acc[1], s % B), s \div B>>,
                     <<<<>>, 0>>, f)
  IN Norm(Append(Append(st[1], st[2] % B), st[2] \div B))

NAdd(a, b) == Carry([i \in 1..Max2(Len(a), Len(b)) |-> Dig(a, i) + Dig(b, i)])

\* a - b for a >= b
NSub(a, b) ==
  LET st == FoldLeftDomain(
              LAMBDA acc, i : LET s == a[i] - Dig(b, i) - acc[2]
                              IN IF s < 0 THEN <<Append(acc[1], s + B), 1>>
                                          ELSE <<Append(acc[1], s), 0>>,
              <<<<>>, 0>>, a)
  IN Norm(st[1])

\* -1, 0, 1
NCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE IF a = b THEN 0
  ELSE FoldLeftDomain(LAMBDA acc, i : IF a[i] = b[i] THEN acc
                                      ELSE IF a[i] < b[i] THEN -1 ELSE 1, 0, a)

NLt(a, b) == NCmp(a, b) = -1
NLe(a, b) == NCmp(a, b) # 1

\* column by column; a column sums at most Len(a) products, so Len(a) <= 100 keeps them below 2^31
NMulShort(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Carry([k \in 1..(Len(a) + Len(b)) |->
         FoldLeftDomain(LAMBDA acc, i : IF i > k \/ k + 1 - i > Len(b) THEN acc
                                        ELSE acc + a[i] * b[k + 1 - i], 0, a)])
RECURSIVE NMul(_, _)
NMul(a, b) ==
  IF Len(a) > Len(b) THEN NMul(b, a)
  ELSE IF Len(a) <= 100 THEN NMulShort(a, b)
  ELSE NAdd(NMulShort(SubSeq(a, 1, 100), b),
            [i \in 1..100 |-> 0] \o NMul(SubSeq(a, 101, Len(a)), b))

\* a * k + c for machine numbers 0 <= k, c < 2^19
NMulAdd(a, k, c) ==
  LET st == FoldLeft(LAMBDA acc, d : LET s == acc[2] + d * k
                                     IN <<Append(acc[1], s % B), s \div B>>,
                     <<<<>>, c>>, a)
  IN Norm(st[1] \o <<st[2] % B, (st[2] \div B) % B, st[2] \div (B * B)>>)

\* A machine number as a natural
NN(k) == Norm(<<k % B, (k \div B) % B, k \div (B * B)>>)

Zeros(n) == [i \in 1..n |-> 0]

\* 2^n
NPow2(n) == Append(Zeros(n \div BBits), 2 ^ (n % BBits))

\* a * 2^n
NShl(a, n) ==
  IF a = <<>> THEN <<>>
  ELSE Zeros(n \div BBits) \o
       (IF n % BBits = 0 THEN a ELSE Carry([i \in 1..Len(a) |-> a[i] * 2 ^ (n % BBits)]))

\* floor(a / 2^n)
NShr(a, n) ==
  LET k == n \div BBits
      r == n % BBits
  IN IF k >= Len(a) THEN <<>>
     ELSE Norm([i \in 1..(Len(a) - k) |->
            (a[i + k] \div 2 ^ r) + (Dig(a, i + k + 1) % 2 ^ r) * 2 ^ (BBits - r)])

\* a mod 2^n
NLow(a, n) ==
  LET k == n \div BBits
      r == n % BBits
  IN IF k >= Len(a) THEN a
     ELSE Norm(Append(SubSeq(a, 1, k), a[k + 1] % 2 ^ r))

NBit(a, i) == (Dig(a, (i \div BBits) + 1) \div 2 ^ (i % BBits)) % 2

\* number of significant bits
DLen(d) == IF d = 0 THEN 0 ELSE CHOOSE n \in 1..BBits : 2 ^ (n - 1) <= d /\ d < 2 ^ n
NBitLen(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * BBits + DLen(a[Len(a)])

NAnd(a, b) == Norm([i \in 1..Min2(Len(a), Len(b)) |-> a[i] & b[i]])
NOr(a, b)  == [i \in 1..Max2(Len(a), Len(b)) |->
                 Dig(a, i) + Dig(b, i) - (Dig(a, i) & Dig(b, i))]
NXor(a, b) == Norm([i \in 1..Max2(Len(a), Len(b)) |->
                 Dig(a, i) + Dig(b, i) - 2 * (Dig(a, i) & Dig(b, i))])

\* a^k by repeated multiplication, for a machine number k
NPow(a, k) == FoldLeftDomain(LAMBDA acc, i : NMul(acc, a), <<1>>, [i \in 1..k |-> 0])

\* a mod b for b # 0: binary long division, from the most significant bit
NMod(a, b) ==
  IF NLt(a, b) THEN a
  ELSE LET n == NBitLen(a)
       IN FoldLeftDomain(LAMBDA r, i : LET s == NMulAdd(r, 2, NBit(a, n - i))
                                       IN IF NLt(s, b) THEN s ELSE NSub(s, b),
                         <<>>, [i \in 1..n |-> 0])

\* q, r are the quotient and remainder of a by b # 0
NDivOk(a, b, q, r) == NLt(r, b) /\ NAdd(NMul(q, b), r) = a

\* The natural whose digits in the given radix (most significant first) are ds
NFromDigits(ds, radix) == FoldLeft(LAMBDA acc, d : NMulAdd(acc, radix, d), <<>>, ds)

-----------------------------------------------------------------------------
(* Integers *)

Z0 == <<0, <<>>>>
Z1 == <<0, <<1>>>>
MkInt(s, m) == IF m = <<>> THEN Z0 ELSE <<s, m>>
IsInt(x) == x[1] \in {0, 1} /\ IsNat(x[2]) /\ (x[2] = <<>> => x[1] = 0)
Neg(x) == IF x[2] = <<>> THEN x ELSE <<1 - x[1], x[2]>>
Abs(x) == <<0, x[2]>>
IsNeg(x) == x[1] = 1
IsZero(x) == x[2] = <<>>

Add(x, y) ==
  IF x[1] = y[1] THEN <<x[1], NAdd(x[2], y[2])>>
  ELSE LET c == NCmp(x[2], y[2])
       IN IF c = 0 THEN Z0
          ELSE IF c = 1 THEN <<x[1], NSub(x[2], y[2])>>
          ELSE <<y[1], NSub(y[2], x[2])>>
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == MkInt((x[1] + y[1]) % 2, NMul(x[2], y[2]))
Cmp(x, y) == IF x[1] # y[1] THEN (IF x[1] = 1 THEN -1 ELSE 1)
             ELSE IF x[1] = 1 THEN NCmp(y[2], x[2]) ELSE NCmp(x[2], y[2])
Lt(x, y) == Cmp(x, y) = -1
Le(x, y) == Cmp(x, y) # 1
Pow(x, k) == MkInt((x[1] * k) % 2, NPow(x[2], k))
IntN(k) == IF k < 0 THEN <<1, NN(-k)>> ELSE <<0, NN(k)>>

\* truncated division
DivOk(a, b, q, r) ==
  /\ NDivOk(a[2], b[2], q[2], r[2])
  /\ IsInt(q) /\ IsInt(r)
  /\ r[2] # <<>> => r[1] = a[1]
  /\ q[2] # <<>> => q[1] = (a[1] + b[1]) % 2
\* quotient alone / remainder alone (the other one is a witness)
Trunc(a, b, q) ==       \* q = trunc(a / b):  0 <= |a| - |q||b| < |b|, right sign
  /\ IsInt(q)
  /\ q[2] # <<>> => q[1] = (a[1] + b[1]) % 2
  /\ LET p == NMul(q[2], b[2])
     IN NLe(p, a[2]) /\ NLt(NSub(a[2], p), b[2])

\* two's complement: x mod 2^w as a natural, and back
ToTwos(x, w) == IF x[1] = 0 THEN NLow(x[2], w)
                ELSE LET m == NLow(x[2], w)
                     IN IF m = <<>> THEN <<>> ELSE NSub(NPow2(w), m)
OfTwos(m, w) == IF NBit(m, w - 1) = 1 THEN <<1, NSub(NPow2(w), m)>> ELSE <<0, m>>

\* the range of w-bit integers, signed (sg = 1) or unsigned (sg = 0)
MinOf(w, sg) == IF sg = 1 THEN <<1, NPow2(w - 1)>> ELSE Z0
MaxOf(w, sg) == <<0, NSub(NPow2(IF sg = 1 THEN w - 1 ELSE w), <<1>>)>>
Fits(x, w, sg) ==
  IF x[1] = 0 THEN NBitLen(x[2]) <= (IF sg = 1 THEN w - 1 ELSE w)
  ELSE sg = 1 /\ (NBitLen(x[2]) <= w - 1 \/ x[2] = NPow2(w - 1))
Wrap(x, w, sg) == IF Fits(x, w, sg) THEN x
                  ELSE IF sg = 1 THEN OfTwos(ToTwos(x, w), w) ELSE <<0, ToTwos(x, w)>>
Clamp(x, w, sg) == IF Fits(x, w, sg) THEN x
                   ELSE IF x[1] = 1 THEN MinOf(w, sg) ELSE MaxOf(w, sg)

\* infinite two's complement, via a width that holds both operands
BitW(x, y) == Max2(NBitLen(x[2]), NBitLen(y[2])) + 2
ZAnd(x, y) == LET w == BitW(x, y) IN OfTwos(NAnd(ToTwos(x, w), ToTwos(y, w)), w)
ZOr(x, y) == LET w == BitW(x, y) IN OfTwos(NOr(ToTwos(x, w), ToTwos(y, w)), w)
ZXor(x, y) == LET w == BitW(x, y) IN OfTwos(NXor(ToTwos(x, w), ToTwos(y, w)), w)
ZNot(x) == Sub(Neg(x), Z1)
Shl(x, n) == MkInt(x[1], NShl(x[2], n))
ShrFloor(x, n) ==
  IF x[1] = 0 THEN <<0, NShr(x[2], n)>>
  ELSE MkInt(1, NAdd(NShr(x[2], n), IF NLow(x[2], n) = <<>> THEN <<>> ELSE <<1>>))

\* x is the integer denoted by the digits ds (most significant first) and sign
FromDigits(s, ds, radix) == MkInt(s, NFromDigits(ds, radix))
=============================================================================
