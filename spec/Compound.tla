------------------------------ MODULE Compound ------------------------------
(***************************************************************************)
(* Complex numbers, vectors (C23), row reduction and determinants (C24)    *)
(* and indexing of matrices (C25).                                         *)
(*                                                                         *)
(* Elements are rationals <<num, den>> with den # 0, num and den being     *)
(* integers of module Big; x and y denote the same element iff             *)
(* num(x) * den(y) = num(y) * den(x).  Matrices are sequences of rows.     *)
(***************************************************************************)
EXTENDS FixedWidth

\* ------------------------------------------------------------- rationals
Q0 == <<Z0, Z1>>
Q1 == <<Z1, Z1>>
QEq(x, y) == Mul(x[1], y[2]) = Mul(y[1], x[2])
QZero(x) == IsZero(x[1])
QAdd(x, y) == IF x[2] = y[2] THEN <<Add(x[1], y[1]), x[2]>>
              ELSE <<Add(Mul(x[1], y[2]), Mul(y[1], x[2])), Mul(x[2], y[2])>>
QNeg(x) == <<Neg(x[1]), x[2]>>
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == <<Mul(x[1], y[1]), Mul(x[2], y[2])>>
QDiv(x, y) == <<Mul(x[1], y[2]), Mul(x[2], y[1])>>
QSum(s) == FoldLeft(QAdd, Q0, s)
QProd(s) == FoldLeft(QMul, Q1, s)
IsQ(x) == IsInt(x[1]) /\ IsInt(x[2]) /\ ~IsZero(x[2])
SeqEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : IsQ(b[i]) /\ QEq(a[i], b[i])
MatEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SeqEq(a[i], b[i])
OkIs(o, v, Eq(_, _)) == o[1] = "ok" /\ Eq(v, o[2])

\* ------------------------------------------------------------- complex
CAdd(x, y) == <<QAdd(x[1], y[1]), QAdd(x[2], y[2])>>
CSub(x, y) == <<QSub(x[1], y[1]), QSub(x[2], y[2])>>
CMul(x, y) == <<QSub(QMul(x[1], y[1]), QMul(x[2], y[2])), QAdd(QMul(x[1], y[2]), QMul(x[2], y[1]))>>
CZero(x) == QZero(x[1]) /\ QZero(x[2])
COne(x) == QEq(x[1], Q1) /\ QZero(x[2])
\* r is the square root of q, which is the square of a rational
IsRoot(q, r) == IsQ(r) /\ IsNeg(r[1]) = IsNeg(r[2]) /\ QEq(QMul(r, r), q)
CNorm(x) == QAdd(QMul(x[1], x[1]), QMul(x[2], x[2]))

ComplexOk(c) ==
  CASE c[1] = "cadd" -> OkIs(c[5], CAdd(c[3], c[4]), SeqEq)
    [] c[1] = "csub" -> OkIs(c[5], CSub(c[3], c[4]), SeqEq)
    [] c[1] = "cmul" -> OkIs(c[5], CMul(c[3], c[4]), SeqEq)
    [] c[1] = "cdiv" -> c[5][1] = "ok" /\ SeqEq(c[5][2], c[5][2]) /\ SeqEq(CMul(c[5][2], c[4]), c[3])
    [] c[1] = "cconst" -> OkIs(c[4], c[3], SeqEq)
    [] c[1] = "cident" -> c[4] = Ok1(<<Bool(CZero(c[3])), Bool(COne(c[3]))>>)
    [] c[1] = "ceq" -> c[5] = Ok1(LET e == SeqEq(c[3], c[4]) IN <<Bool(e), Bool(~e)>>)
    [] c[1] = "cabs2" -> OkIs(c[4], CNorm(c[3]), QEq)
    [] c[1] = "cabs" -> c[4][1] = "ok" /\ IsRoot(CNorm(c[3]), c[4][2])

\* ------------------------------------------------------------- vectors
\* one lane; division and remainder are those of integers, truncating
LaneOk(op, x, y, r) ==
  CASE op = "add" -> QEq(r, QAdd(x, y))
    [] op = "sub" -> QEq(r, QSub(x, y))
    [] op = "mul" -> QEq(r, QMul(x, y))
    [] op = "div" -> r[2] = Z1 /\ Trunc(x[1], y[1], r[1])
    [] op = "rem" -> r = <<MkInt(x[1][1], NMod(x[1][2], y[1][2])), Z1>>
LanesOk(op, a, b, o) ==
  /\ o[1] = "ok" /\ Len(o[2]) = Len(a)
  /\ \A i \in DOMAIN a : LaneOk(op, a[i], b[i], o[2][i])
Const(k, n) == [i \in 1..n |-> k]
IsVZero(a) == \A i \in DOMAIN a : QZero(a[i])
Lanes(F(_, _), a, b) == [i \in DOMAIN a |-> F(a[i], b[i])]
Dot(a, b) == QSum(Lanes(QMul, a, b))
CrossP(a, b) == LET D(i, j) == QSub(QMul(a[i], b[j]), QMul(a[j], b[i])) IN <<D(2, 3), D(3, 1), D(1, 2)>>
\* checked: all lanes fit, or none is returned
CheckedOk(w, sg, r, o) ==
  IF \A i \in DOMAIN r : Fits(r[i], w, sg) THEN o = Ok1(r) ELSE o = None

VectorOk(c) ==
  CASE c[1] = "vop" -> LanesOk(c[3], c[4], c[5], c[6])
    [] c[1] = "sop" -> LanesOk(c[3], c[4], Const(c[5], Len(c[4])), c[6])
    [] c[1] = "vconst" -> OkIs(c[4], c[3], SeqEq)
    [] c[1] = "vident" -> c[4] = Ok1(Bool(IsVZero(c[3])))
    [] c[1] = "vrow" -> OkIs(c[4], <<c[3]>>, MatEq)
    [] c[1] = "vcol" -> OkIs(c[4], [i \in DOMAIN c[3] |-> <<c[3][i]>>], MatEq)
    [] c[1] = "vget" -> IF c[4] < Len(c[3]) THEN OkIs(c[5], c[3][c[4] + 1], QEq) ELSE c[5] = Panic
    [] c[1] = "vset" -> IF c[4] < Len(c[3]) THEN OkIs(c[6], [c[3] EXCEPT ![c[4] + 1] = c[5]], SeqEq)
                        ELSE c[6] = Panic
    [] c[1] = "veq" -> c[5] = Ok1(Bool(SeqEq(c[3], c[4])))
    [] c[1] = "vsum" -> OkIs(c[4], QSum(c[3]), QEq)
    [] c[1] = "vprod" -> OkIs(c[4], QProd(c[3]), QEq)
    [] c[1] = "vdot" -> OkIs(c[5], Dot(c[3], c[4]), QEq)
    [] c[1] = "vdist2" -> OkIs(c[5], LET d == Lanes(QSub, c[3], c[4]) IN Dot(d, d), QEq)
    [] c[1] = "vdist" -> c[5][1] = "ok" /\ IsRoot(LET d == Lanes(QSub, c[3], c[4]) IN Dot(d, d), c[5][2])
    [] c[1] = "wedge" -> c[3] = Ok1(0)
    [] c[1] = "cross" -> OkIs(c[5], CrossP(c[3], c[4]), SeqEq)
    [] c[1] = "kadd" -> CheckedOk(c[2], c[3], Lanes(Add, c[4], c[5]), c[6])
    [] c[1] = "ksub" -> CheckedOk(c[2], c[3], Lanes(Sub, c[4], c[5]), c[6])

\* ------------------------------------------------------------- matrices
Cols(a) == IF Len(a) = 0 THEN 0 ELSE Len(a[1])
Transpose(a) == [j \in 1..Cols(a) |-> [i \in DOMAIN a |-> a[i][j]]]
MMap(F(_, _), a, b) == [i \in DOMAIN a |-> Lanes(F, a[i], b[i])]
MMul(a, x) == LET t == Transpose(x) IN [i \in DOMAIN a |-> [j \in DOMAIN t |-> Dot(a[i], t[j])]]
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
Eye(r, k) == [i \in 1..r |-> [j \in 1..k |-> IF i = j THEN Q1 ELSE Q0]]
ZeroM(r, k) == [i \in 1..r |-> Const(Q0, k)]

MatrixOk(c) ==
  CASE c[1] = "madd" -> OkIs(c[5], MMap(QAdd, c[3], c[4]), MatEq)
    [] c[1] = "msub" -> OkIs(c[5], MMap(QSub, c[3], c[4]), MatEq)
    [] c[1] = "mmul" -> OkIs(c[5], MMul(c[3], c[4]), MatEq)
    [] c[1] = "mtrans" -> OkIs(c[4], Transpose(c[3]), MatEq)
    [] c[1] = "mconst" -> OkIs(c[4], c[3], MatEq)
    [] c[1] = "mswap" -> OkIs(c[6], Swap(c[3], c[4] + 1, c[5] + 1), MatEq)
    [] c[1] = "mone" -> OkIs(c[4], Eye(c[2], c[3]), MatEq)
    [] c[1] = "mzero" -> OkIs(c[4], ZeroM(c[2], c[3]), MatEq)
    [] c[1] = "mident" -> c[4] = Ok1(<<Bool(\A i \in DOMAIN c[3] : IsVZero(c[3][i])),
                                       Bool(MatEq(Eye(Len(c[3]), Cols(c[3])), c[3]))>>)
    [] c[1] = "meq" -> c[5] = Ok1(Bool(MatEq(c[3], c[4])))
    [] c[1] = "mdiag" -> OkIs(c[4], [i \in DOMAIN c[3] |-> c[3][i][i]], SeqEq)

CompoundOk(c) ==
  CASE c[1] \in {"cadd", "csub", "cmul", "cdiv", "cconst", "cident", "ceq", "cabs2", "cabs"} -> ComplexOk(c)
    [] c[1] \in {"madd", "msub", "mmul", "mtrans", "mconst", "mswap", "mone", "mzero", "mident", "meq",
                 "mdiag"} -> MatrixOk(c)
    [] OTHER -> VectorOk(c)

\* ------------------------------------------------------------- row reduction
\* a row scaled by the product of its denominators
Dens(row) == FoldLeft(LAMBDA acc, x : Mul(acc, x[2]), Z1, row)
IntRow(row) == [i \in DOMAIN row |->
                 Mul(row[i][1], FoldLeftDomain(LAMBDA acc, j : IF j = i THEN acc ELSE Mul(acc, row[j][2]), Z1, row))]
IntRows(a) == [i \in DOMAIN a |-> IntRow(a[i])]
\* position of the first non-zero entry of an integer row, 0 if there is none
Lead(row) == SelectInSeq(row, LAMBDA x : ~IsZero(x))
ZeroRow(row) == Lead(row) = 0
Echelon(m) ==
  \A i \in 1..(Len(m) - 1) :
     IF ZeroRow(m[i]) THEN ZeroRow(m[i + 1])
     ELSE ZeroRow(m[i + 1]) \/ Lead(m[i + 1]) > Lead(m[i])
\* row with column Lead(p) cleared by p
Clear(row, p) ==
  LET k == Lead(p)
  IN IF k = 0 \/ IsZero(row[k]) THEN row
     ELSE [i \in DOMAIN row |-> Sub(Mul(row[i], p[k]), Mul(p[i], row[k]))]
\* reducing by echelon rows in order leaves zero iff row is in their span
InSpan(row, m) == ZeroRow(FoldLeft(Clear, row, m))
\* an echelon basis of the rows, by insertion
RECURSIVE Insert(_, _)
Insert(basis, row) ==      \* basis: sequence of rows with distinct leads
  IF ZeroRow(row) THEN basis
  ELSE LET hit == {i \in DOMAIN basis : Lead(basis[i]) = Lead(row)}
       IN IF hit = {} THEN Append(basis, row)
          ELSE Insert(basis, Clear(row, basis[CHOOSE i \in hit : TRUE]))
Rank(a) == Len(FoldLeft(Insert, <<>>, a))
\* Leibniz, developed along the first row
RECURSIVE Det(_)
Det(a) ==
  IF Len(a) = 0 THEN Z1
  ELSE LET n == Len(a)
           Minor(j) == [i \in 1..(n - 1) |-> [k \in 1..(n - 1) |-> a[i + 1][IF k < j THEN k ELSE k + 1]]]
           Term(j) == IF IsZero(a[1][j]) THEN Z0
                      ELSE LET t == Mul(a[1][j], Det(Minor(j))) IN IF j % 2 = 1 THEN t ELSE Neg(t)
       IN FoldLeftDomain(LAMBDA acc, j : Add(acc, Term(j)), Z0, a)
AllDens(a) == FoldLeft(LAMBDA acc, row : Mul(acc, Dens(row)), Z1, a)

ReduceOk(c) ==
  CASE c[1] = "reduce" ->
         /\ c[6][1] = "ok"
         /\ LET m == c[6][2]
                ia == IntRows(c[5])
                im == IntRows(m)
            IN /\ Len(m) = c[3]
               /\ \A i \in DOMAIN m : Len(m[i]) = c[4] /\ \A j \in DOMAIN m[i] : IsQ(m[i][j])
               /\ Echelon(im)
               /\ \A i \in DOMAIN ia : InSpan(ia[i], im)
               /\ Cardinality({i \in DOMAIN im : ~ZeroRow(im[i])}) = Rank(ia)
               \* only swaps and adding multiples of rows: the determinant is kept up to sign
               /\ c[3] = c[4] =>
                    LET p == QProd([i \in DOMAIN m |-> m[i][i]])
                    IN Mul(Abs(p[1]), AllDens(c[5])) = Mul(Abs(Det(ia)), p[2])
    [] c[1] = "det" -> /\ c[4][1] = "ok"
                       /\ IsQ(c[4][2])
                       /\ Mul(c[4][2][1], AllDens(c[3])) = Mul(Det(IntRows(c[3])), c[4][2][2])

\* ------------------------------------------------------------- indexing
\* one step of a history over a matrix kept statically and dynamically; rows of plain integers
InR(m, r, k) == r < Len(m) /\ k < Cols(m)
After(m, s) ==
  CASE s[1] = "set" /\ InR(m, s[3], s[4]) -> [m EXCEPT ![s[3] + 1][s[4] + 1] = s[2]]
    [] s[1] = "swap" /\ s[3] < Len(m) /\ s[4] < Len(m) -> Swap(m, s[3] + 1, s[4] + 1)
    [] OTHER -> m
OutOk(m, cols, s, o) ==
  CASE s[1] = "get" -> IF InR(m, s[3], s[4]) THEN o = Ok1(m[s[3] + 1][s[4] + 1]) ELSE o = Panic
    [] s[1] = "set" -> IF InR(m, s[3], s[4]) THEN o = Ok1(0) ELSE o = Panic
    [] s[1] = "swap" -> IF s[3] < Len(m) /\ s[4] < Len(m) THEN o = Ok1(0)
                        \* exchanging a row that is not there with itself touches nothing either way
                        ELSE o = Panic \/ (s[3] = s[4] /\ o = Ok1(0))
    [] s[1] = "dims" -> o = Ok1(<<Len(m), cols>>)
HistoryOk(c) ==
  LET R[k \in 0..Len(c[5])] ==       \* <<model matrix, all steps up to k allowed>>
        IF k = 0 THEN <<c[4], TRUE>>
        ELSE LET p == R[k - 1]
                 s == c[5][k]
                 m == After(p[1], s)
             IN <<m, p[2] /\ OutOk(p[1], c[3], s, s[5]) /\ OutOk(p[1], c[3], s, s[6]) /\ s[7] = m /\ s[8] = m>>
  IN R[Len(c[5])][2]
\* a large matrix: cell (r, k) starts as (7 r + 3 k) mod 1000; the model keeps which original row
\* is where (for rows that moved) and the cells written since
LargeOk(c) ==
  LET At(mv, r) == IF r \in DOMAIN mv THEN mv[r] ELSE r
      Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
      R[k \in 0..Len(c[4])] ==       \* <<rows that moved, cells written, all steps up to k allowed>>
        IF k = 0 THEN <<[x \in {} |-> 0], [x \in {} |-> 0], TRUE>>
        ELSE LET p == R[k - 1]
                 s == c[4][k]
                 row == At(p[1], s[3])
                 cell == <<row, s[4]>>
                 there == s[3] < c[2] /\ s[4] < (IF s[1] = "swap" THEN c[2] ELSE c[3])
             IN CASE s[1] = "get" ->
                       <<p[1], p[2],
                         p[3] /\ s[5] = IF ~there THEN Panic
                                       ELSE Ok1(IF cell \in DOMAIN p[2] THEN p[2][cell]
                                                ELSE (7 * row + 3 * s[4]) % 1000)>>
                  [] s[1] = "set" ->
                       <<p[1], IF there THEN Put(p[2], cell, s[2]) ELSE p[2],
                         p[3] /\ s[5] = IF there THEN Ok1(0) ELSE Panic>>
                  [] s[1] = "swap" ->
                       <<IF there THEN Put(Put(p[1], s[3], At(p[1], s[4])), s[4], row) ELSE p[1], p[2],
                         p[3] /\ IF there THEN s[5] = Ok1(0)
                                 ELSE s[5] = Panic \/ (s[3] = s[4] /\ s[5] = Ok1(0))>>
  IN R[Len(c[4])][3]
IndexOk(c) ==
  CASE c[1] = "hist" -> HistoryOk(c)
    [] c[1] = "large" -> LargeOk(c)
    [] c[1] = "new" -> IF c[2] = 0 THEN (IF c[3] = 0 \/ c[4] = 0 THEN c[5] = Ok1(<<c[3], c[4]>>) ELSE c[5] = Panic)
                       ELSE IF c[3] # 0 /\ c[4] # 0 /\ c[3] <= c[2] /\ c[4] <= c[2] /\ c[3] * c[4] = c[2]
                            THEN c[5] = Ok1(<<c[3], c[4]>>) ELSE c[5] = Panic
=============================================================================
