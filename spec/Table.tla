------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* Exhaustive tables over small operands: one record holds the answers of  *)
(* an operation for a fixed left operand and *every* right operand of a    *)
(* range, so that all pairs of an eight-bit type are a few hundred records.*)
(* Everything is within TLC's own integers.                                *)
(*                                                                         *)
(* <<"tab", policy, operation, dbg, w, sg, a, lo, answers>>: the i-th      *)
(* answer belongs to the right operand lo + i - 1.  An answer is the value,*)
(* or one of the codes below; "o" answers carry the overflow flag.         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise

TNone == 1000000
TPanic == 2000000
TFlag == 4000000
TSkip == 6000000     \* not executed
TAny == 8000000      \* the specification does not say

TAbs(x) == IF x < 0 THEN -x ELSE x
TMin(w, sg) == IF sg = 1 THEN -(2 ^ (w - 1)) ELSE 0
TMax(w, sg) == IF sg = 1 THEN 2 ^ (w - 1) - 1 ELSE 2 ^ w - 1
TFits(x, w, sg) == TMin(w, sg) <= x /\ x <= TMax(w, sg)
TWrap(x, w, sg) == LET m == x % (2 ^ w) IN IF sg = 1 /\ m >= 2 ^ (w - 1) THEN m - 2 ^ w ELSE m
TClamp(x, w, sg) == IF x < TMin(w, sg) THEN TMin(w, sg) ELSE IF x > TMax(w, sg) THEN TMax(w, sg) ELSE x

\* toward zero
TQuo(a, b) == LET q == TAbs(a) \div TAbs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
TRem(a, b) == a - b * TQuo(a, b)

\* on (enough of) infinite two's complement
TBits(x) == x % 1048576
TBack(m) == IF m >= 524288 THEN m - 1048576 ELSE m
TCmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

RECURSIVE TGcd(_, _)
TGcd(a, b) == IF b = 0 THEN a ELSE TGcd(b, a % b)

\* the power, or some number far outside every range considered
RECURSIVE TPow(_, _)
TPow(a, k) == IF k = 0 THEN 1
              ELSE IF TAbs(a) <= 1 THEN (IF k % 2 = 0 THEN a * a ELSE a)
              ELSE IF k > 17 THEN 100001
              ELSE LET p == TPow(a, k - 1) IN IF TAbs(p) > 100000 THEN 100001 ELSE p * a
RECURSIVE TPowMod(_, _, _)
TPowMod(a, k, m) == IF k = 0 THEN 1 % m
                    ELSE LET h == TPowMod(a, k \div 2, m)
                         IN IF k % 2 = 0 THEN (h * h) % m ELSE (((h * h) % m) * a) % m

TExact(op, a, b) ==
  CASE op = "add" -> a + b
    [] op = "sub" -> a - b
    [] op = "mul" -> a * b
    [] op = "and" -> TBack(TBits(a) & TBits(b))
    [] op = "or" -> TBack(TBits(a) | TBits(b))
    [] op = "xor" -> TBack(TBits(a) ^^ TBits(b))
    [] op = "div" -> TQuo(a, b)
    [] op = "rem" -> TRem(a, b)
    [] op = "shl" -> a * 2 ^ b
    [] op = "shr" -> a \div 2 ^ b
    [] op = "pow" -> TPow(a, b)
    [] op = "gcd" -> TGcd(TAbs(a), TAbs(b))
    [] op = "cmp" -> TCmp(a, b)
    [] op = "id" -> b
    [] op = "neg" -> -b
    [] op = "not" -> -1 - b
    [] op = "abs" -> TAbs(b)

TModular(op, a, b, w, sg) == IF op = "pow" THEN TWrap(TPowMod(a, b, 2 ^ w), w, sg)
                             ELSE TWrap(TExact(op, a, b), w, sg)

\* the answer the policy names for an operation defined on a and b
TPolicy(pol, op, d, w, sg, a, b) ==
  LET x == TExact(op, a, b)
  IN CASE pol = "x" -> x
       [] pol = "w" -> TModular(op, a, b, w, sg)
       [] pol = "c" -> IF TFits(x, w, sg) THEN x ELSE TNone
       [] pol = "s" -> TClamp(x, w, sg)
       [] pol = "o" -> LET v == TModular(op, a, b, w, sg) IN IF v = x THEN v ELSE v + TFlag
       [] pol = "p" -> IF TFits(x, w, sg) THEN x ELSE IF d = 1 THEN TPanic ELSE TModular(op, a, b, w, sg)

\* shifts: "w" reduces the amount, "c" answers none beyond the width, "u" panics beyond it in
\* debug builds (and says nothing at it); "x" is exact
TShifted(op, a, k, w, sg) == IF op = "shr" THEN a \div 2 ^ k
                             ELSE IF k >= w THEN 0
                             ELSE TWrap((a % 2 ^ (w - k)) * 2 ^ k, w, sg)
TShift(pol, op, d, w, sg, a, b) ==
  CASE pol = "x" -> IF b < 12 THEN TExact(op, a, b) ELSE TAny
    [] pol = "w" -> TShifted(op, a, b % w, w, sg)
    [] pol = "c" -> IF b < 0 \/ b >= w THEN TNone ELSE TShifted(op, a, b, w, sg)
    [] pol = "i" -> IF b > w THEN TNone ELSE TShifted(op, a, b, w, sg)      \* in place on a slice
    [] pol = "u" -> IF b < w THEN TShifted(op, a, b, w, sg)
                    ELSE IF b = w \/ d = 0 THEN TAny ELSE TPanic

TExpect(pol, op, d, w, sg, a, b) ==
  CASE op \in {"shl", "shr"} -> TShift(pol, op, d, w, sg, a, b)
    [] op \in {"div", "rem"} /\ b = 0 -> IF pol = "c" THEN TNone ELSE TPanic
    [] op = "gcd" /\ ~TFits(TGcd(TAbs(a), TAbs(b)), w, sg) -> TAny
    [] OTHER -> TPolicy(pol, op, d, w, sg, a, b)

TabOk(c) ==
  \A i \in DOMAIN c[9] :
    LET e == TExpect(c[2], c[3], c[4], c[5], c[6], c[7], c[8] + i - 1)
    IN c[9][i] = TSkip \/ e = TAny \/ c[9][i] = e

(* --- fixed-point numbers: <<"ftab", op, w, sg, n, a, lo, answers>> --------- *)
\* q is the answer for the raw operands a and b with n fraction bits
TFixed(op, n, a, b, q) ==
  LET u == 2 ^ n
      fl(x) == (x \div u) * u
  IN CASE op = "mul" -> IF (a * b) % u = 0 THEN q * u = a * b ELSE TAbs(q * u - a * b) <= u
       [] op = "div" -> TAbs(a * u - q * b) < TAbs(b)
       [] op = "floor" -> q = fl(b)
       [] op = "ceil" -> q = -fl(-b)
       [] op = "trunc" -> q = (IF b < 0 THEN -fl(-b) ELSE fl(b))
       [] op = "fract" -> q = b - (IF b < 0 THEN -fl(-b) ELSE fl(b))
       [] op = "round" -> q % u = 0 /\ 2 * TAbs(q - b) <= u
       [] op = "val" -> q = b * u
       [] OTHER -> q = TExact(op, a, b)

FTabOk(c) ==
  \A i \in DOMAIN c[8] :
    LET q == c[8][i] IN q = TSkip \/ (q < TNone /\ TFixed(c[2], c[5], c[6], c[7] + i - 1, q))

(* --- rationals: <<"rtab", op, a, lo, nums, dens>>: a over every lo.. ------- *)
\* the pair <<p, q>> is num / den in lowest terms with a positive denominator
TLowest(num, den, p, q) == q > 0 /\ p * den = num * q /\ TGcd(TAbs(p), q) = 1

RTabOk(c) ==
  \A i \in DOMAIN c[5] :
    LET b == c[4] + i - 1
        p == c[5][i]
        q == c[6][i]
    IN p = TSkip \/ (IF b = 0 THEN p = TNone ELSE p < TNone /\ TLowest(c[3], b, p, q))

\* <<"r2tab", op, n, d, ns, ds, ps, qs>>: n/d with every ns[i]/ds[i]
R2TabOk(c) ==
  \A i \in DOMAIN c[5] :
    LET n == c[3]
        d == c[4]
        m == c[5][i]
        e == c[6][i]
        p == c[7][i]
        q == c[8][i]
    IN CASE c[2] = "add" -> p < TNone /\ TLowest(n * e + m * d, d * e, p, q)
         [] c[2] = "sub" -> p < TNone /\ TLowest(n * e - m * d, d * e, p, q)
         [] c[2] = "mul" -> p < TNone /\ TLowest(n * m, d * e, p, q)
         [] c[2] = "div" -> IF m = 0 THEN p = TPanic ELSE p < TNone /\ TLowest(n * e, d * m, p, q)
=============================================================================
