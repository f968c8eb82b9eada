------------------------------ MODULE Uniform -------------------------------
(***************************************************************************)
(* Random values of a fixed width.  A sampler is a function of the source  *)
(* it draws from: the same source gives the same values.  Given a source   *)
(* of independent uniform bits its values are uniform over all bit         *)
(* patterns and independent of one another, so that in S draws             *)
(*   every bit is set in S/2 of them,                                      *)
(*   two different bits, and bits of successive values, together in S/4,   *)
(*   every value of a byte comes up in S/256, two bytes agree in S/256,    *)
(* up to the deviation d that chance allows: with variance v,              *)
(* d^2 <= 64 v (eight standard deviations; recorded sources are fixed by   *)
(* the seed, so an answer does not vary between runs).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

S == 8192                       \* draws behind every count
Dev(x) == IF x < 0 THEN -x ELSE x
Counts(c, n) == Len(c) = n /\ \A i \in 1..n : c[i] \in 0..S

\* c of S draws with probability 1/k; the variance is S (k-1)/k^2
Within(c, k) == LET d == Dev(k * c - S)
                IN d < 40000 /\ d * d <= 64 * S * (k - 1)

RECURSIVE SumSeq(_, _)
SumSeq(c, i) == IF i = 0 THEN 0 ELSE c[i] + SumSeq(c, i - 1)

BitsOk(n, c) == Counts(c, 8 * n) /\ \A i \in DOMAIN c : Within(c[i], 2)
PairsOk(p, c) == Counts(c, Len(p)) /\ \A i \in DOMAIN c : Within(c[i], 4)
\* two hundred and fifty-six values share S draws, about 32 each; none is left out
ByteOk(c) == /\ Counts(c, 256)
             /\ SumSeq(c, 256) = S
             /\ \A i \in 1..256 : c[i] > 0 /\ Within(c[i], 256)
EqualOk(p, c) == Counts(c, Len(p)) /\ \A i \in DOMAIN c : c[i] > 0 /\ Within(c[i], 256)
\* two-byte values: 2^21 draws, 32 of each value
AllOk(c) == Len(c) = 1024 /\ \A i \in 1..1024 : c[i] > 0 /\ (c[i] - 32) * (c[i] - 32) <= 64 * 32

UniformOk(e) ==
  LET n == e[3]
      out == e[Len(e)]
  IN CASE e[1] = "again" -> Len(out[1]) = 20 * n /\ out[1] = out[2]
       [] e[1] = "bits" -> BitsOk(n, out)
       [] e[1] = "byte" -> ByteOk(out)
       [] e[1] = "pairs" -> PairsOk(e[4], out)
       [] e[1] = "next" -> PairsOk(e[4], out)
       [] e[1] = "equal" -> EqualOk(e[4], out)
       [] e[1] = "all" -> AllOk(out)
       [] OTHER -> FALSE
=============================================================================
