-------------------------------- MODULE Mat ---------------------------------
(***************************************************************************)
(* Matrices as mathematics: a matrix is a non-empty sequence of non-empty  *)
(* rows of equal length.  Row and column arguments are 0-based, as in the  *)
(* library's interface.  Nothing here mentions how the library stores or   *)
(* traverses a matrix.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Ieee

(* Large matrices are only looked at in places: their elements are then    *)
(* evaluated when they are asked for, not when the matrix is made.         *)
Lazy == "VP_LAZY" \in DOMAIN IOEnv

R(M) == Len(M)
C(M) == Len(M[1])
IsMat(M) == Len(M) > 0 /\ Len(M[1]) > 0 /\ \A i \in 1..Len(M) : Len(M[i]) = Len(M[1])
At(M, i, j) == M[i + 1][j + 1]                    \* 0-based element
MkMat(r, c, f(_, _)) == LET M == [i \in 1..r |-> [j \in 1..c |-> f(i - 1, j - 1)]] IN IF Lazy THEN M ELSE TLCEval(M)
InMat(M, i, j) == i >= 0 /\ j >= 0 /\ i < R(M) /\ j < C(M)
SameShape(A, B) == R(A) = R(B) /\ C(A) = C(B)

\* f(0) + .. + f(n-1), by halves
SumTo(f(_), n) == LET RECURSIVE Sum(_, _)
                      Sum(lo, hi) == IF lo = hi THEN f(lo) ELSE LET mid == (lo + hi) \div 2 IN IAdd(Sum(lo, mid), Sum(mid + 1, hi))
                  IN IF n = 0 THEN 0 ELSE IAdd(0, Sum(0, n - 1))

(* ---- construction ---- *)
FromData(r, c, d) == MkMat(r, c, LAMBDA i, j : d[i * c + j + 1])
Data(M) == [k \in 1..(R(M) * C(M)) |-> At(M, (k - 1) \div C(M), (k - 1) % C(M))]
Identity(r, c) == MkMat(r, c, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Const(r, c, x) == MkMat(r, c, LAMBDA i, j : x)
BlockDiag(r, c, d) == MkMat(r, c, LAMBDA i, j : IF i = j THEN d[i + 1] ELSE 0)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* ---- structure ---- *)
Transpose(M) == MkMat(C(M), R(M), LAMBDA i, j : At(M, j, i))
Skip(k, i) == IF i < k THEN i ELSE i + 1
Minor(M, r, c) == MkMat(R(M) - 1, C(M) - 1, LAMBDA i, j : At(M, Skip(r, i), Skip(c, j)))
SubMatrix(M, r0, c0, r1, c1) == MkMat(r1 - r0, c1 - c0, LAMBDA i, j : At(M, r0 + i, c0 + j))
Column(M, c) == MkMat(R(M), 1, LAMBDA i, j : At(M, i, c))
Beside(A, B) == LET c == C(A) IN MkMat(R(A), c + C(B), LAMBDA i, j : IF j < c THEN At(A, i, j) ELSE At(B, i, j - c))
Above(A, B) == LET r == R(A) IN MkMat(r + R(B), C(A), LAMBDA i, j : IF i < r THEN At(A, i, j) ELSE At(B, i - r, j))
Rows(M, s) == MkMat(Len(s), C(M), LAMBDA i, j : At(M, s[i + 1], j))
Cols(M, s) == MkMat(R(M), Len(s), LAMBDA i, j : At(M, i, s[j + 1]))
\* The 0-based positions at which a 0/1 sequence is 1, in order.
Chosen(flags) == SelectSeq([i \in 1..Len(flags) |-> i - 1], LAMBDA k : flags[k + 1] = 1)
SetElem(M, r, c, v) == [M EXCEPT ![r + 1][c + 1] = v]

(* ---- arithmetic ---- *)
Map1(M, f(_)) == MkMat(R(M), C(M), LAMBDA i, j : f(At(M, i, j)))
Map2(A, B, f(_, _)) == MkMat(R(A), C(A), LAMBDA i, j : f(At(A, i, j), At(B, i, j)))
Product(A, B) == LET n == C(A) IN MkMat(R(A), C(B), LAMBDA i, j : SumTo(LAMBDA k : IMul(At(A, i, k), At(B, k, j)), n))
Trace(M) == SumTo(LAMBDA k : At(M, k, k), Min(R(M), C(M)))
ReduceCols(M, init, f(_, _)) ==
  LET RECURSIVE Fold(_, _)
      Fold(j, k) == IF k = 0 THEN init[j + 1] ELSE f(Fold(j, k - 1), At(M, k - 1, j))
      n == R(M)
  IN  MkMat(1, C(M), LAMBDA i, j : Fold(j, n))

EqMat(A, B) == SameShape(A, B) /\ \A i \in 0..(R(A) - 1), j \in 0..(C(A) - 1) : IEq(At(A, i, j), At(B, i, j))
CanonMat(M) == Map1(M, Canon)
=============================================================================
