-------------------------------- MODULE Decomp ------------------------------
(***************************************************************************)
(* What the decompositions and solvers must return, as relations between   *)
(* the argument and the results.  A record r describes one call:           *)
(*   op, m, n (shape of the argument A), st (how the call ended: "ok",     *)
(*   "none", "rej" for a panic, "malformed" for results of the wrong shape *)
(*   or with non-finite elements), nl (digits per number), ai and isint    *)
(*   (A as integers times 2^k, when it is such), and the results as        *)
(*   matrices of fixed-point numbers whose exponents were chosen so that   *)
(*   both sides of each equation have the same exponent.                   *)
(* Violated(r) is the set of the names of the violated clauses.            *)
(***************************************************************************)
EXTENDS Fixed, IntOracle

Must(name, cond) == IF cond THEN {} ELSE {name}
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

(* Rounding allowance in units, relative to the product of the norms:      *)
(* 2^-41 n for f64, 2^-16 n for f32 (observed on the library: below        *)
(* 2^-45 and 2^-18 up to n = 50).                                          *)
Tol(r) == MaxI(r.m, r.n) * IF r.nl = 3 THEN 1048576 ELSE 128
\* For methods that square the condition number.
Loose(r) == IF r.nl = 3 THEN MinI(MaxI(r.m, r.n), 255) * 4194304 ELSE MaxI(r.m, r.n) * 131072
\* A multiple of a tolerance, at most 2^30.
Fold(c, tol) == IF c > 1073741824 \div tol THEN 1073741824 ELSE c * tol

Shape(M, h, w) == Len(M) = h /\ \A i \in 1..h : Len(M[i]) = w
One(nl, e) == Round(IntAt(1, e, nl), nl)
IsIntMat(r) == r.isint

\* Every nonzero column has a row in which its entry dominates: the nonzero columns are independent, and well-conditioned.
ZeroCol(M, j) == \A i \in 1..Len(M) : M[i][j] = 0
Covered(M, j) == \E i \in 1..Len(M) : M[i][j] # 0 /\ AbsV(M[i][j]) >= 2 * OffSum(M[i], j)
ColumnsCovered(M) == \A j \in 1..Len(M[1]) : ZeroCol(M, j) \/ Covered(M, j)
NoZeroColumn(M) == \A j \in 1..Len(M[1]) : ~ZeroCol(M, j)
TransposeI(M) == [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
CertainlyFullRank(r) == IsIntMat(r) /\ NoZeroColumn(r.ai) /\ ColumnsCovered(r.ai)
\* The rank is certainly the number of rows or of columns (a square matrix may be judged by its rows as well).
RowsIndependent(r) == IsIntMat(r) /\ LET T == TransposeI(r.ai) IN NoZeroColumn(T) /\ ColumnsCovered(T)
CertainlyGreatestRank(r) == (r.m >= r.n /\ CertainlyFullRank(r)) \/ (r.m <= r.n /\ RowsIndependent(r))

(* Matrices on which elimination with partial pivoting is exact in binary, *)
(* whatever pivot is chosen among equals: up to 3x3 with entries -1,0,1,   *)
(* 2x2 with powers of two, and matrices with a zero column.                *)
Entries(M) == UNION {{M[i][j] : j \in 1..Len(M[1])} : i \in 1..Len(M)}
\* Fewer than j rows have anything in the first j columns: the columns are dependent, and the last of the rows' pivots is exactly zero.
FirstOf(row) == IF \E c \in 1..Len(row) : row[c] # 0 THEN CHOOSE c \in 1..Len(row) : row[c] # 0 /\ \A d \in 1..(c - 1) : row[d] = 0 ELSE 0
FirstColumns(M) == The({TLCEval([i \in 1..Len(W) |-> FirstOf(W[i])]) : W \in {M}})
TooFewRows(M) == \E L \in {FirstColumns(M)} : \E j \in 1..Len(M[1]) : Cardinality({i \in 1..Len(M) : L[i] \in 1..j}) < j
\* The rows are those of an upper triangular matrix without zeros on the diagonal, in any order: nothing is eliminated.
TriangularRows(M) == {FirstOf(M[i]) : i \in 1..Len(M)} = 1..Len(M[1])
ExactElimination(r) == IsIntMat(r) /\ r.m = r.n /\
   \/ r.n <= 3 /\ Entries(r.ai) \subseteq {-1, 0, 1}
   \/ r.n <= 2 /\ Entries(r.ai) \subseteq {-4, -2, -1, 0, 1, 2, 4}
   \/ r.n = 1
   \/ TooFewRows(r.ai)
   \/ TriangularRows(r.ai)
SmallInts(r) == IsIntMat(r) /\ r.m = r.n /\ r.n <= (IF r.nl = 3 THEN 4 ELSE 8) /\ \A x \in Entries(r.ai) : AbsV(x) <= 30
\* "sing", "reg" or "?" when neither is certain for a floating-point computation.
Singularity(r) == IF ExactElimination(r) THEN (IF TooFewRows(r.ai) THEN "sing" ELSE IF TriangularRows(r.ai) THEN "reg" ELSE IF Det(r.ai) = 0 THEN "sing" ELSE "reg")
                  ELSE IF CertainlyGreatestRank(r) THEN "reg"
                  ELSE IF SmallInts(r) /\ (IF r.nl = 3 THEN r.n <= 3 /\ \A x \in Entries(r.ai) : AbsV(x) <= 3 ELSE r.n <= 6 /\ \A x \in Entries(r.ai) : AbsV(x) <= 4)
                          /\ DetMod(r.ai) # 0 THEN "reg"
                  ELSE "?"

(* ------------------------------------------------------------------ LU *)
LUViolated(r) ==
  Must("LU always exists", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  LET k == MinI(r.m, r.n)  nl == r.nl  Ut == TransposeF(r.U) IN
  Must("piv is a permutation", Len(r.piv) = r.m /\ IsPerm(r.piv)) \cup
  IF ~IsPerm(r.piv) THEN {} ELSE
  Must("P is the permutation matrix of piv", \A i \in 1..r.m : \A j \in 1..r.m : r.P[i][j] = (IF r.piv[i] = j - 1 THEN 1 ELSE 0)) \cup
  Must("L is unit lower trapezoidal", \A i \in 1..r.m : \A j \in 1..k :
          IF i = j THEN r.L[i][j] = One(nl, r.eL) ELSE i < j => IsZeroNum(r.L[i][j])) \cup
  \* the digits stand for half the value; an excess below 2^-23 is rounding
  Must("the multipliers are at most one", r.eL = 1 /\ \A i \in 1..r.m : \A j \in 1..k :
          LET d == r.L[i][j] IN AbsV(d[1]) <= 2048 /\ (AbsV(d[1]) = 2048 => d[1] * Sign(<<d[2]>>) <= 0 \/ AbsV(d[2]) <= 1)) \cup
  Must("U is upper trapezoidal", \A i \in 1..k : \A j \in 1..r.n : i > j => IsZeroNum(r.U[i][j])) \cup
  Must("P*A = L*U", ProductIs(r.L, Ut, [i \in 1..r.m |-> r.A[r.piv[i] + 1]], nl, Tol(r)))

(* --------------------------------------------------------- determinant *)
RECURSIVE DigitsMod(_, _)
DigitsMod(d, k) == IF k = 0 THEN 0 ELSE Mod(DigitsMod(d, k - 1) * Base + d[k])
ValueMod(v) == LET x == DigitsMod(v.d, Len(v.d)) IN Mod(IF v.neg THEN -x ELSE x)
ValueZero(v) == \A k \in 1..Len(v.d) : v.d[k] = 0
RECURSIVE Prod(_, _, _)
Prod(p, k, nl) == IF k = 1 THEN p[1] ELSE Round(Times(Prod(p, k - 1, nl), p[k], nl), nl)
DetViolated(r) ==
  LET sg == Singularity(r)  nl == r.nl
      flag(x) == x \in {0, 1} IN
  IF r.m # r.n THEN Must("non-square determinants are rejected", r.st = "rej") \cup
                    Must("non-square singularity is rejected", r.sing = -1 /\ r.nons = -1)
  ELSE
  Must("the determinant exists", r.st = "ok") \cup
  Must("singularity is decided", flag(r.sing) /\ flag(r.nons) /\ flag(r.lusing) /\ flag(r.lunons)) \cup
  Must("the negated predicate is the negation", r.nons = 1 - r.sing /\ r.lunons = 1 - r.lusing) \cup
  Must("matrix and decomposition agree", r.sing = r.lusing) \cup
  Must("a singular matrix is reported singular", sg = "sing" => r.sing = 1) \cup
  Must("a regular matrix is not reported singular", sg = "reg" => r.sing = 0) \cup
  IF r.st # "ok" THEN {} ELSE
  Must("the determinant is the same directly and through the decomposition", r.same) \cup
  (IF sg = "sing" THEN Must("the determinant of a singular matrix is zero", r.zero) ELSE {}) \cup
  (IF sg = "reg" THEN Must("the determinant of a regular matrix is not zero", ~r.zero) ELSE {}) \cup
  (IF SmallInts(r) THEN LET d == DetMod(r.ai) IN
     Must("the determinant is the integer it should be", ValueMod(r.det) = d /\ ValueMod(r.ludet) = d
                    /\ r.det.fr <= (IF nl = 3 THEN 65536 ELSE 1024) /\ r.ludet.fr <= (IF nl = 3 THEN 65536 ELSE 1024)) ELSE {}) \cup
  Must("the determinant is the signed product of the pivots",
       LET p == Slots(Prod(r.pivots, r.n, nl)) IN
       Within(SubS(Slots(r.prod), IF PermSign(r.piv) = 1 THEN p ELSE NegS(p)), nl, Tol(r)))

(* --------------------------------------------------- A*X = B and A*X=I *)
SolveViolated(r) ==
  LET sg == Singularity(r)  nl == r.nl IN
  IF r.op = "inverse" /\ r.m # r.n THEN Must("the inverse of a non-square matrix is rejected", r.st = "rej")
  ELSE IF r.b # r.m THEN Must("right-hand sides of another height are rejected", r.st = "rej")
  ELSE Must("a call ends with a solution or none", r.st \in {"ok", "none"}) \cup
       Must("a regular system has a solution", sg = "reg" \/ r.op = "cholsolve" \/ (r.op = "solve_tall" /\ CertainlyFullRank(r)) => r.st = "ok") \cup
       Must("a singular system has none", sg = "sing" => r.st = "none") \cup
       IF r.st # "ok" THEN {} ELSE
       Must("one row per unknown", Shape(r.X, r.n, Len(r.B[1]))) \cup
       Must("A*X = B", ProductIs(r.A, TransposeF(r.X), r.B, nl, Tol(r)))

(* ------------------------------------------------------------ Cholesky *)
SymTok(M) == Len(M) = Len(M[1]) /\ \A i \in 1..Len(M) : \A j \in 1..i : M[i][j] = M[j][i]
RECURSIVE GramAt(_, _, _, _)
GramAt(G, i, j, k) == IF k = 0 THEN 0 ELSE G[i][k] * G[j][k] + GramAt(G, i, j, k - 1)
\* A = G*G' + diag(d) with d > 0
IsGram(A, G, d) == /\ \A i \in 1..Len(A) : d[i] > 0
                   /\ \A i \in 1..Len(A) : \A j \in 1..Len(A) : A[i][j] = GramAt(G, i, j, Len(A)) + (IF i = j THEN d[i] ELSE 0)
Quad(A, x) == SumSeq([i \in 1..Len(A) |-> x[i] * SumSeq([j \in 1..Len(A) |-> A[i][j] * x[j]], Len(A))], Len(A))
\* "pd", "not" or "?"
Definiteness(r) ==
  IF r.m # r.n \/ ~SymTok(r.At) THEN "not"
  ELSE IF ~IsIntMat(r) THEN "?"
  ELSE IF RowDominant(r.ai, 2) /\ \A i \in 1..r.n : r.ai[i][i] > 0 THEN "pd"
  ELSE IF r.cert.t = "gram" THEN (IF IsGram(r.ai, r.cert.g, r.cert.d) THEN "pd" ELSE "?")
  ELSE IF r.cert.t = "vec" /\ Quad(r.ai, r.cert.x) < 0 THEN "not"
  ELSE IF r.n <= (IF r.nl = 3 THEN 3 ELSE 4) /\ \A x \in Entries(r.ai) : AbsV(x) <= 6
       THEN (IF HasNegativeMinor(r.ai) THEN "not" ELSE IF PositiveDefinite(r.ai) THEN "pd" ELSE "?")
  ELSE "?"
CholViolated(r) ==
  LET d == Definiteness(r)  nl == r.nl IN
  Must("the call ends with a factor or none", r.st \in {"ok", "none"}) \cup
  Must("a symmetric positive definite matrix has a factor", d = "pd" => r.st = "ok") \cup
  Must("any other matrix has none", d = "not" => r.st = "none") \cup
  IF r.st # "ok" THEN {} ELSE
  Must("L is lower triangular with positive diagonal", \A i \in 1..r.n : r.Lt[i][i] = 1 /\ \A j \in (i + 1)..r.n : r.Lt[i][j] = 0) \cup
  Must("L*L' = A", ProductIs(r.L, r.L, r.A, nl, Tol(r)))

(* ------------------------------------------------------------------ QR *)
QRFactorsViolated(r) ==
  LET nl == r.nl IN
  Must("Q is orthogonal", RowsOrthonormal(r.Q, r.eQ, nl, Tol(r)) /\ RowsOrthonormal(TransposeF(r.Q), r.eQ, nl, Tol(r))) \cup
  Must("R is upper trapezoidal", \A i \in 1..r.m : \A j \in 1..r.n : i > j => IsZeroNum(r.R[i][j])) \cup
  Must("Q*R = A", ProductIs(r.Q, TransposeF(r.R), r.A, nl, Tol(r)))
\* One reflection: (v'v)(W' - W) + 2 v (v'W) = 0; the vectors have length about one.
Reflects(v, W, W2, nl, tol) ==
  LET h == Len(v)
      vv == Round(Dot(v, v, h, nl), nl)
      Wt == TransposeF(W)
      beta == TLCEval([c \in 1..Len(Wt) |-> Round(Dot(v, Wt[c], h, nl), nl)])
      diff(i, c) == [t \in 1..nl |-> W2[i][c][t] - W[i][c][t]]
  IN \A i \in 1..h : \A c \in 1..Len(Wt) :
        Within(AddS(Times(vv, diff(i, c), nl), ScaleS(2, Times(v[i], beta[c], nl))), nl, tol)
HouseholderViolated(r) ==
  LET nl == r.nl  k == MinI(r.m, r.n) IN
  Must("the Householder vectors are lower trapezoidal", \A i \in 1..r.m : \A j \in 1..r.n : i < j => r.Hz[i][j] = 0) \cup
  Must("each recorded step is the reflection of its vector", \A j \in 1..k :
          IF \A i \in 1..r.m : IsZeroNum(r.V[j][i]) THEN r.W[j + 1] = r.W[j] ELSE Reflects(r.V[j], r.W[j], r.W[j + 1], nl, Fold(r.m, Tol(r)))) \cup
  Must("the reflections produce R", \A i \in 1..r.m : \A j \in 1..r.n :
          Within(Slots([t \in 1..nl |-> r.W[k + 1][i][j][t] - r.Rw[i][j][t]]), nl, Fold(k + 1, Tol(r))))
QRViolated(r) == Must("QR always exists", r.st = "ok") \cup
                 IF r.st # "ok" THEN {} ELSE QRFactorsViolated(r) \cup IF Large(MaxI(r.m, r.n)) THEN {} ELSE HouseholderViolated(r)

\* A'(A*X - B) = 0; the residual is formed 64 times smaller to fit the digits.
NormalEquations(r) ==
  LET nl == r.nl IN
  \A Xt \in {TransposeF(r.X)}, At \in {TransposeF(r.A)} :        \* (quantified over one value: evaluated once)
  \A Full \in {TLCEval([j \in 1..Len(Xt) |-> [i \in 1..r.m |-> Round(SubS(Dot(r.A[i], Xt[j], r.n, nl), Slots(r.B[i][j])), nl)]])} :
  \A Res \in {DownM(Full, 6, nl)} :
  \A i \in 1..r.n : \A j \in 1..Len(Xt) : Within(Dot(At[i], Res[j], r.m, nl), nl, Tol(r))
QRSolveViolated(r) ==
  LET nl == r.nl IN
  Must("full rank is decided", r.full \in {0, 1}) \cup
  (IF r.n > r.m \/ (IsIntMat(r) /\ ~NoZeroColumn(r.ai)) THEN Must("full rank is denied", r.full = 0)
   ELSE IF CertainlyFullRank(r) THEN Must("full rank is confirmed", r.full = 1) ELSE {}) \cup
  IF r.b # r.m THEN Must("right-hand sides of another height are rejected", r.st = "rej")
  ELSE Must("a call ends with a solution or none", r.st \in {"ok", "none"}) \cup
       Must("a solution exactly when of full rank", r.full \in {0, 1} => (r.st = "ok") = (r.full = 1)) \cup
       IF r.st # "ok" THEN {} ELSE
       Must("one row per unknown", Shape(r.X, r.n, Len(r.B[1]))) \cup
       Must("the residual is orthogonal to the columns", NormalEquations(r)) \cup
       (IF r.m = r.n THEN Must("A*X = B", ProductIs(r.A, TransposeF(r.X), r.B, nl, Tol(r))) ELSE {})

(* -------------------------------------------------------- pseudoinverse *)
PinvViolated(r) ==
  LET nl == r.nl
      full == CertainlyGreatestRank(r) IN
  IF ~full THEN {} ELSE
  Must("the pseudoinverse exists", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  Must("shape", Shape(r.X, r.n, r.m)) \cup
  IF ~Shape(r.X, r.n, r.m) THEN {} ELSE
  LET At == TransposeF(r.A)  Xt == TransposeF(r.X)
      \* the right-hand sides at the same exponent: A * 2^-(eAX+6)
      Scaled(d) == LET e == r.eAX + 6 IN IF e < 0 THEN d ELSE Shift(d, e, nl) IN
  IF Large(r.m) /\ Large(r.n)
  THEN LET Apply(M, w) == The({TLCEval([i \in 1..Len(M) |-> Round(Dot(M[i], x, Len(x), nl), nl)]) : x \in {w}})
           Low(w) == TLCEval([i \in 1..Len(w) |-> Down(w[i], 6, nl)])
           Same(u, v) == \A x \in {u} : \A y \in {v} : Len(x) = Len(y) /\ \A i \in 1..Len(x) : Within(SubS(Slots(x[i]), Slots(y[i])), nl, Loose(r) \div 1024)
           Symmetric(M, K, Mt, Kt) == \A t \in Probes : Same(Low(Apply(M, TimesProbe(K, t, nl))), Low(Apply(Kt, TimesProbe(Mt, t, nl))))
           Triple(M, K) == \A t \in Probes : \A z \in {TimesProbe(M, t, nl)} :
                             Same(Apply(M, Low(Apply(K, z))), [i \in 1..Len(z) |-> Scaled(z[i])]) IN
       Must("A*X is symmetric", Symmetric(r.A, r.X, At, Xt)) \cup Must("X*A is symmetric", Symmetric(r.X, r.A, Xt, At)) \cup
       Must("A*X*A = A", Triple(r.A, r.X)) \cup Must("X*A*X = X", Triple(r.X, r.A))
  ELSE
  LET \* A*X and X*A, 64 times smaller
      AX == DownM(ProductF(r.A, Xt, nl), 6, nl)
      XA == DownM(ProductF(r.X, At, nl), 6, nl)
      Sym(M) == \A i \in 1..Len(M) : \A j \in 1..i : WithinN([t \in 1..nl |-> M[i][j][t] - M[j][i][t]], nl, Loose(r))
  IN
  Must("A*X is symmetric", Sym(AX)) \cup Must("X*A is symmetric", Sym(XA)) \cup
  Must("A*X*A = A", ProductIs(AX, At, [i \in 1..r.m |-> [j \in 1..r.n |-> Scaled(r.A[i][j])]], nl, Loose(r))) \cup
  Must("X*A*X = X", ProductIs(XA, Xt, [i \in 1..r.n |-> [j \in 1..r.m |-> Scaled(r.X[i][j])]], nl, Loose(r)))

(* ------------------------------------------------------------------ SVD *)
ScaledColumns(U, s, Z, i, j, nl) == IF j <= Len(s) THEN Times(U[i][j], s[j], nl) ELSE ZeroS(nl)
\* A*V = U*S (h x w), column j of U*S is s[j] * U[.][j]
FactorEquation(A, Vt, U, s, nl, tol) ==
  IF Large(Len(Vt)) /\ Large(Len(A))
  THEN LET k == Len(s)  V == TransposeF(Vt) IN
       \A t \in Probes :
         LET w == TimesProbe(V, t, nl)
             sz == TLCEval([j \in 1..k |-> LET d == Down(s[j], 7, nl) IN IF ProbeSign(t, j) = 1 THEN d ELSE Round(NegS(Slots(d)), nl)]) IN
         \A i \in 1..Len(A) : Within(SubS(Dot(A[i], w, Len(w), nl), Dot(U[i], sz, k, nl)), nl, tol)
  ELSE \A i \in 1..Len(A) : \A j \in 1..Len(Vt) :
     Within(SubS(Dot(A[i], Vt[j], Len(Vt[j]), nl), IF j <= Len(s) THEN Times(U[i][j], s[j], nl) ELSE ZeroS(nl)), nl, tol)
Descending(s, nl) == \A k \in 1..(Len(s) - 1) : LET d == Round(Slots([t \in 1..nl |-> s[k][t] - s[k + 1][t]]), nl) IN
                        Sign(d) >= 0 \/ WithinN(d, nl, 2)
SDiagonal(r) == \A i \in 1..r.m : \A j \in 1..r.n : i # j => r.Sz[i][j] = 0
SVDViolated(r) ==
  Must("the SVD always exists", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  LET nl == r.nl  Vt == TransposeF(r.V)  Ut == TransposeF(r.U) IN
  Must("S is diagonal", SDiagonal(r)) \cup
  Must("singular values are not negative", \A k \in 1..Len(r.s) : Sign(r.s[k]) >= 0) \cup
  Must("singular values descend", Descending(r.s, nl)) \cup
  Must("U is orthogonal", RowsOrthonormal(Ut, r.eU, nl, Tol(r))) \cup
  Must("V is orthogonal", RowsOrthonormal(Vt, r.eV, nl, Tol(r))) \cup
  Must("A*V = U*S", FactorEquation(r.A, Vt, r.U, r.s, nl, Tol(r)))

(* rank: the number of singular values above max(m,n) * s1 * eps, with     *)
(* singular values as 24-bit mantissas (rounded down) and exponents.       *)
EpsExp(r) == IF r.nl = 3 THEN -23 ELSE -52
RECURSIVE HalveTimes(_, _)
HalveTimes(x, k) == IF k <= 0 \/ x = 0 THEN x ELSE HalveTimes(x \div 2, k - 1)
\* Compare x*2^a with y*2^b for 0 <= x, y < 2^30: -1, 0 (within a relative 2^-20) or 1.
Compare(x, a, y, b) ==
  LET Norm(v, e) == v  IN
  IF x = 0 /\ y = 0 THEN 0 ELSE IF x = 0 THEN -1 ELSE IF y = 0 THEN 1
  ELSE IF a - b > 31 THEN 1 ELSE IF b - a > 31 THEN -1
  ELSE LET p == IF a >= b THEN x ELSE HalveTimes(x, b - a)
           q == IF a >= b THEN HalveTimes(y, a - b) ELSE y
           slack == MaxI(2, q \div 1048576)
       IN IF p > q + slack THEN 1 ELSE IF p < q - slack THEN -1 ELSE 0
RankViolated(r) ==
  Must("the SVD always exists", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  LET big == MaxI(r.m, r.n)
      k == Len(r.sm)
      c(j) == IF big < 128 THEN Compare(r.sm[j][1], r.sm[j][2], r.sm[1][1] * big, r.sm[1][2] + EpsExp(r))
              ELSE Compare(r.sm[j][1], r.sm[j][2], (r.sm[1][1] \div 16) * big, r.sm[1][2] + 4 + EpsExp(r))
      sure == Cardinality({j \in 1..k : r.sm[1][1] # 0 /\ c(j) > 0})
      maybe == Cardinality({j \in 1..k : r.sm[1][1] # 0 /\ c(j) >= 0})
  IN Must("rank counts the significant singular values", r.rank >= sure /\ r.rank <= maybe) \cup
     (IF IsIntMat(r) /\ ColumnsCovered(r.ai)
      THEN Must("rank of a matrix with exact null directions", r.rank = Cardinality({j \in 1..r.n : ~ZeroCol(r.ai, j)})) ELSE {})

(* The direct method: only for matrices that are certainly of full rank.   *)
DirectViolated(r) ==
  LET nl == r.nl  wide == r.m < r.n
      full == CertainlyGreatestRank(r) IN
  IF ~full THEN {} ELSE
  Must("the direct SVD exists", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  LET k == MinI(r.m, r.n)
      Vt == TransposeF(r.V)  Ut == TransposeF(r.U)
      Lead(Mt) == [j \in 1..k |-> Mt[j]] IN
  Must("S is diagonal", SDiagonal(r)) \cup
  Must("singular values are positive", \A j \in 1..k : Sign(r.s[j]) > 0) \cup
  Must("singular values descend", Descending(r.s, nl)) \cup
  Must("the leading columns of U are orthonormal", RowsOrthonormal(Lead(Ut), r.eU, nl, Loose(r))) \cup
  Must("the leading columns of V are orthonormal", RowsOrthonormal(Lead(Vt), r.eV, nl, Loose(r))) \cup
  (IF wide THEN Must("A'*U = V*S'", FactorEquation(TransposeF(r.At), Ut, r.V, r.s, nl, Loose(r)))
           ELSE Must("A*V = U*S", FactorEquation(r.A, Vt, r.U, r.s, nl, Loose(r))))

(* ---------------------------------------------------------- eigenvalues *)
\* D is the block-diagonal matrix of the listed eigenvalues; complex ones in adjacent conjugate pairs.
ListsAndD(r) ==
  Must("complex eigenvalues come in adjacent conjugate pairs", \A j \in 1..r.n :
     /\ r.imt[j] > 0 => j < r.n /\ r.imt[j + 1] = -r.imt[j] /\ r.ret[j + 1] = r.ret[j]
     /\ r.imt[j] < 0 => j > 1 /\ r.imt[j - 1] = -r.imt[j] /\ r.ret[j - 1] = r.ret[j]) \cup
  Must("D holds exactly these eigenvalues", \A i \in 1..r.n : \A j \in 1..r.n :
     r.Dt[i][j] = IF i = j THEN r.ret[i]
                  ELSE IF j = i + 1 /\ r.imt[i] > 0 THEN r.imt[i]
                  ELSE IF j = i - 1 /\ r.imt[i] < 0 THEN r.imt[i] ELSE 0)
EigenEquation(r) ==
  LET nl == r.nl  Vt == TransposeF(r.Vn)  Dc == TransposeF(r.D) IN
  IF Large(r.n)
  THEN \A t \in Probes :
         LET w == TimesProbe(r.Vn, t, nl)  dz == TimesProbe(r.D, t, nl) IN
         \A i \in 1..r.n : Within(SubS(Dot(r.A[i], w, r.n, nl), Dot(r.Vn[i], dz, r.n, nl)), nl, 2 * Tol(r))
  ELSE \A i \in 1..r.n : \A j \in 1..r.n :
     Within(SubS(Dot(r.A[i], Vt[j], r.n, nl), Dot(r.Vn[i], Dc[j], r.n, nl)), nl, 2 * Tol(r))
SymEigViolated(r) ==
  Must("the eigenvalue decomposition exists", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  LET nl == r.nl IN
  Must("eigenvalues are real", \A j \in 1..r.n : r.imt[j] = 0) \cup
  Must("eigenvalues descend", Descending(r.re, nl)) \cup
  Must("V is orthogonal", RowsOrthonormal(TransposeF(r.V), r.eV, nl, Tol(r))) \cup
  ListsAndD(r) \cup
  Must("A*V = V*D", EigenEquation(r))

\* Sums of the powers of the eigenvalues are the traces of the powers of the matrix (everything scaled so that it stays below one).
CMul(x, y, nl) == <<Round(SubS(Times(x[1], y[1], nl), Times(x[2], y[2], nl)), nl), Round(AddS(Times(x[1], y[2], nl), Times(x[2], y[1], nl)), nl)>>
CMulAll(E, F, nl) == TLCEval([j \in 1..Len(E) |-> CMul(E[j], F[j], nl)])
RECURSIVE SumNums(_, _, _)
SumNums(f, k, nl) == IF k = 0 THEN ZeroS(nl) ELSE AddS(Slots(f[k]), SumNums(f, k - 1, nl))
TraceF(M, nl) == SumNums([i \in 1..Len(M) |-> M[i][i]], Len(M), nl)
TraceProduct(M, Nt, nl) == SumNums([i \in 1..Len(M) |-> Round(Dot(M[i], Nt[i], Len(M), nl), nl)], Len(M), nl)
PowerSums(r, kmax) ==
  LET nl == r.nl
      Same(E, tr) == Within(SubS(SumNums([j \in 1..r.n |-> E[j][1]], r.n, nl), tr), nl, Tol(r)) IN
  \A E1 \in {TLCEval([j \in 1..r.n |-> <<r.rep[j], r.imp[j]>>])} :
  /\ Same(E1, TraceF(r.Ap, nl))
  /\ kmax >= 2 =>
     \A E2 \in {CMulAll(E1, E1, nl)}, At \in {TransposeF(r.Ap)} :
     /\ Same(E2, TraceProduct(r.Ap, At, nl))
     /\ kmax >= 3 =>
        \A E3 \in {CMulAll(E2, E1, nl)}, A2 \in {ProductF(r.Ap, At, nl)} :
        /\ Same(E3, TraceProduct(A2, At, nl))
        /\ kmax >= 4 =>
           \A A2t \in {TransposeF(A2)} :
           /\ Same(CMulAll(E2, E2, nl), TraceProduct(A2, A2t, nl))
           /\ kmax >= 5 => Same(CMulAll(E2, E3, nl), TraceProduct(A2, TransposeF(ProductF(A2, At, nl)), nl))

EigViolated(r) ==
  IF r.m # r.n THEN Must("a matrix that is not square is rejected", r.st = "rej") ELSE
  Must("the eigenvalue decomposition exists", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  ListsAndD(r) \cup
  Must("no eigenvector column is zero", \A j \in 1..r.n : \E i \in 1..r.n : ~IsZeroNum(r.Vn[i][j])) \cup
  Must("A*V = V*D", EigenEquation(r)) \cup
  Must("the power sums are the traces", PowerSums(r, MinI(r.n, IF r.n <= 12 THEN 5 ELSE IF Large(r.n) THEN 2 ELSE 3)))

(* ------------------------------------------------------------------------ *)
Violated(r) == CASE r.op = "lu" -> LUViolated(r)
                 [] r.op = "det" -> DetViolated(r)
                 [] r.op \in {"solve", "solve_tall", "inverse", "cholsolve"} -> SolveViolated(r)
                 [] r.op = "chol" -> CholViolated(r)
                 [] r.op = "qr" -> QRViolated(r)
                 [] r.op = "qrsolve" -> QRSolveViolated(r)
                 [] r.op = "pinv" -> PinvViolated(r)
                 [] r.op = "svd" -> SVDViolated(r) \cup RankViolated(r)
                 [] r.op = "direct" -> DirectViolated(r)
                 [] r.op = "symeig" -> SymEigViolated(r)
                 [] r.op = "eig" -> EigViolated(r)
=============================================================================
