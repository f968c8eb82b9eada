------------------------------ MODULE SliceOps -----------------------------
(***************************************************************************)
(* Arithmetic on slices of unsigned elements.  A slice denotes the little- *)
(* endian integer of its elements; a slice of n bits holds 0 .. 2^n - 1.   *)
(* Bitwise ("b") and element-wise ("e") algorithms have the same meaning.  *)
(***************************************************************************)
EXTENDS BigIntOps

(* --- C16: allocating forms ----------------------------------------------- *)
\* <<op, family, element type, a, b, out>>
AllocOk(c) ==
  LET a == c[4]
      b == c[5]
      o == c[6]
  IN CASE c[1] = "tab" -> TabOk(c)
       [] c[1] = "add" -> o = Ok1(Add(a, b))
       [] c[1] = "sub" -> LET d == Sub(a, b) IN o = Ok1(<<Abs(d), d[1]>>)
       [] c[1] = "mul" -> o = Ok1(Mul(a, b))
       [] c[1] = "and" -> o = Ok1(ZAnd(a, b))
       [] c[1] = "or"  -> o = Ok1(ZOr(a, b))
       [] c[1] = "xor" -> o = Ok1(ZXor(a, b))
       [] c[1] = "cmp" -> o = Ok1(Cmp(a, b))
       [] c[1] = "shl" -> o = Ok1(Shl(a, b))
       [] c[1] = "shr" -> o = Ok1(ShrFloor(a, b))
       [] c[1] = "div" -> IF IsZero(b) THEN o = Panic
                          ELSE o[1] = "ok" /\ DivOk(a, b, o[2][1], o[2][2])
       [] OTHER -> FALSE

(* --- C17: in-place forms --------------------------------------------------- *)
\* <<op, element type, bits of the left slice, a, b, out>>
Exact(op, a, b) == CASE op \in {"oadd", "cadd", "wadd"} -> Add(a, b)
                     [] op \in {"osub", "csub", "wsub"} -> Sub(a, b)
                     [] op \in {"omul", "cmul", "wmul"} -> Mul(a, b)
                     [] op \in {"cshl", "wshl"} -> Shl(a, b)
                     [] op \in {"cshr", "wshr"} -> ShrFloor(a, b)

\* one of the six in-place division forms, over the true quotient or remainder v
DivForm(o, v, n) == o = Ok1(<<v, 0, n>>)

InPlaceOk(c) ==
  LET n == c[3]
      a == c[4]
      b == c[5]
      o == c[6]
  IN CASE c[1] = "tab" -> TabOk(c)
       [] c[1] \in {"oadd", "osub", "omul"} ->
            LET x == Exact(c[1], a, b)
                v == Wrap(x, n, 0)
            IN o = Ok1(<<v, n, Bool(v # x), v, b>>)
       [] c[1] \in {"cadd", "csub", "cmul"} ->
            LET x == Exact(c[1], a, b)
            IN IF Fits(x, n, 0) THEN o = Ok1(<<x, n, x, b>>) ELSE o = <<"none", b>>
       [] c[1] \in {"wadd", "wsub", "wmul"} ->
            LET v == Wrap(Exact(c[1], a, b), n, 0)
            IN o = Ok1(<<v, n, v, b>>)
       [] c[1] = "not" -> c[5] = Ok1(<<Sub(MaxOf(n, 0), a), n>>)
       [] c[1] \in {"cshl", "cshr"} ->
            IF b > n THEN o = None
            ELSE LET v == Wrap(Exact(c[1], a, b), n, 0) IN o = Ok1(<<v, n, v>>)
       [] c[1] \in {"wshl", "wshr"} ->
            LET v == Wrap(Exact(c[1], a, b % n), n, 0) IN o = Ok1(<<v, n, v>>)
       [] c[1] = "divs" ->
            IF IsZero(b)
            THEN /\ \A i \in {1, 2, 5, 6} : o[i] = Panic
                 /\ \A i \in {3, 4} : o[i][1] = "ok" /\ o[i][2][2] = 1 /\ o[i][2][3] = n
            ELSE /\ \A i \in 1..6 : o[i][1] = "ok" /\ o[i][2][2] = 0 /\ o[i][2][3] = n
                 /\ DivOk(a, b, o[1][2][1], o[2][2][1])
                 /\ o[3] = o[1] /\ o[5] = o[1]
                 /\ o[4] = o[2] /\ o[6] = o[2]
       [] OTHER -> FALSE
=============================================================================
