------------------------------- MODULE Numeric ------------------------------
(***************************************************************************)
(* Norms, traces, products and elementwise operations on floating-point    *)
(* matrices that are not integers.  A record r describes one call; numbers *)
(* are fixed-point (module Fixed) or, for the elementwise operations,      *)
(* names of bit patterns, the scalar operations being given by tables.     *)
(***************************************************************************)
EXTENDS Fixed

MustN(name, cond) == IF cond THEN {} ELSE {name}
AbsNum(d) == IF Sign(d) < 0 THEN NegS(d) ELSE d
\* All elements of a matrix as one sequence.
RECURSIVE Flat(_, _)
Flat(M, k) == IF k = 0 THEN <<>> ELSE Flat(M, k - 1) \o M[k]
RECURSIVE AddUp(_, _, _)
AddUp(s, k, nl) == IF k = 0 THEN ZeroS(nl) ELSE AddS(AddUp(s, k - 1, nl), s[k])
RECURSIVE Power(_, _, _)
Power(d, k, nl) == IF k = 1 THEN d ELSE Round(Times(Power(d, k - 1, nl), d, nl), nl)
\* d <= e for balanced digit sequences
LessEq(d, e, nl) == Sign(Round(Slots([t \in 1..nl |-> e[t] - d[t]]), nl)) >= 0

\* Rounding allowance for a sum of k terms, in units.
SumTol(r, k) == IF r.nl = 3 THEN 65536 + 8192 * k ELSE 64 + 4 * k

VectorNorms == {"one", "two", "euclid", "length", "p", "inf"}
(* v is the reported norm of the elements x; for a fractional p = num/den  *)
(* the elements are y^den or -y^den, and y is given: v^num = (sum of       *)
(* |y|^num)^den.                                                           *)
NormIs(r) ==
  LET nl == r.nl
      x == Flat(r.X, r.m)
      k == Len(x)
      Tol == SumTol(r, k)
      sumOfPowers(s, p) == AddUp([i \in 1..k |-> Slots(Power(AbsNum(s[i]), p, nl))], k, nl)
  IN
  CASE r.kind \in {"two", "euclid", "length", "frob"} -> Within(SubS(Times(r.v, r.v, nl), Dot(x, x, k, nl)), nl, Tol)
    [] r.kind = "one" -> Within(SubS(Slots(r.v), sumOfPowers(x, 1)), nl, Tol)
    [] r.kind = "inf" -> /\ r.vt \in {r.Xt[i] : i \in 1..k}
                         /\ \A i \in 1..k : LessEq(AbsNum(x[i]), r.v, nl)
    [] r.kind = "p" /\ r.den = 1 -> Within(SubS(Slots(Power(r.v, r.num, nl)), sumOfPowers(x, r.num)), nl, Tol * 2 * r.num)
    [] r.kind = "p" -> LET S == Power(Round(sumOfPowers(r.Y, r.num), nl), r.den, nl) IN
                       Within(SubS(Slots(Power(r.v, r.num, nl)), Slots(S)), nl, Tol * r.num * (IF r.den = 2 THEN 2 ELSE 16))
    [] r.kind = "trace" -> LET d == IF r.m < r.n THEN r.m ELSE r.n IN
                           Within(SubS(Slots(r.v), AddUp([i \in 1..d |-> Slots(r.X[i][i])], d, nl)), nl, Tol)
NormViolated(r) ==
  IF r.kind \in VectorNorms /\ r.n # 1 THEN MustN("vector norms of other matrices are rejected", r.st = "rej")
  ELSE MustN("the norm exists", r.st = "ok") \cup
       IF r.st # "ok" THEN {} ELSE
       MustN("a norm is not negative", r.kind = "trace" \/ Sign(r.v) >= 0) \cup
       MustN("the norm is zero only for zero", r.kind = "trace" \/ (IsZeroNum(r.v) <=> \A i \in 1..r.m : \A j \in 1..r.n : IsZeroNum(r.X[i][j]))) \cup
       MustN("the norm equals its definition", NormIs(r))

(* X = A*B up to rounding. *)
ProductViolated(r) ==
  IF r.n # r.m2 THEN MustN("operands that do not fit are rejected", r.st = "rej")
  ELSE MustN("the product exists", r.st = "ok") \cup
       IF r.st # "ok" THEN {} ELSE
       MustN("the product has the outer shape", Len(r.X) = r.m /\ \A i \in 1..r.m : Len(r.X[i]) = r.n2) \cup
       IF ~(Len(r.X) = r.m /\ \A i \in 1..r.m : Len(r.X[i]) = r.n2) THEN {} ELSE
       MustN("the elements are the sums of products", ProductIs(r.A, TransposeF(r.B), r.X, r.nl, SumTol(r, r.n)))

(* Elementwise operations: T is the table of the scalar operation, a       *)
(* sequence of <<x, y, result>>; y is 0 for unary operations.              *)
Apply(T, x, y) == LET hits == {t \in 1..Len(T) : T[t][1] = x /\ T[t][2] = y} IN
                  IF hits = {} THEN -1 ELSE T[CHOOSE t \in hits : TRUE][3]
RECURSIVE FoldColumn(_, _, _, _, _)
FoldColumn(T, A, acc, j, i) == IF i > Len(A) THEN acc ELSE FoldColumn(T, A, Apply(T, acc, A[i][j]), j, i + 1)
EwViolated(r) ==
  MustN("the operation exists", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  IF r.f = "reduce"
  THEN MustN("columns are folded from top to bottom", r.X = <<[j \in 1..r.n |-> FoldColumn(r.T, r.A, r.init[j], j, 1)]>>)
       \cup MustN("the receiver is unchanged", r.after = r.A)
  ELSE LET want == [i \in 1..r.m |-> [j \in 1..r.n |-> Apply(r.T, r.A[i][j], IF r.binary THEN r.B[i][j] ELSE 0)]] IN
       MustN("every element is the scalar operation's result", r.X = want)
       \cup MustN("the receiver is unchanged or the result", r.after = (IF r.inplace THEN want ELSE r.A))
       \cup MustN("the second operand is unchanged", r.binary => r.Bafter = r.B)

(* Elementwise operations and products of integers; division truncates.    *)
AbsI(x) == IF x < 0 THEN -x ELSE x
Quo(x, y) == LET q == AbsI(x) \div AbsI(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
RECURSIVE InnerProduct(_, _, _, _, _)
InnerProduct(A, B, i, j, k) == IF k = 0 THEN 0 ELSE A[i][k] * B[k][j] + InnerProduct(A, B, i, j, k - 1)
RECURSIVE FoldWhole(_, _, _, _)
FoldWhole(A, acc, j, i) == IF i > Len(A) THEN acc ELSE FoldWhole(A, Quo(acc, 2) + Quo(A[i][j], 3), j, i + 1)
WholeResult(r) ==
  LET Each(op(_, _)) == [i \in 1..r.m |-> [j \in 1..r.n |-> op(r.A[i][j], r.B[i][j])]]
      plus(x, y) == x + y  minus(x, y) == x - y  times(x, y) == x * y  scaled(x, y) == r.c * x
  IN CASE r.f = "add" -> Each(plus)
       [] r.f = "sub" -> Each(minus)
       [] r.f \in {"elem_mul", "elem_mul_in"} -> Each(times)
       [] r.f \in {"elem_div", "elem_div_in"} -> Each(Quo)
       [] r.f \in {"scale", "scale_in"} -> Each(scaled)
       [] r.f = "reduce" -> <<[j \in 1..r.n |-> FoldWhole(r.A, r.init[j], j, 1)]>>
       [] r.f = "product" -> [i \in 1..r.m |-> [j \in 1..Len(r.B[1]) |-> InnerProduct(r.A, r.B, i, j, r.n)]]
WholesViolated(r) ==
  MustN("the operation exists", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  MustN("every element is the integer result", r.X = WholeResult(r)) \cup
  MustN("the receiver is unchanged or the result", r.after = (IF r.f \in {"elem_mul_in", "elem_div_in", "scale_in"} THEN WholeResult(r) ELSE r.A)) \cup
  MustN("the second operand is unchanged", r.Bafter = r.B)

(* Approximate equality at the tolerance itself.  The distance of the two  *)
(* numbers is the tolerance (base "zero") or the greatest representable    *)
(* distance below it (base "one") plus k steps of the representation.      *)
EdgeViolated(r) ==
  MustN("the predicate has an answer", r.st = "ok") \cup
  IF r.st # "ok" THEN {} ELSE
  MustN("approximately equal exactly when strictly closer than the tolerance", r.v = (IF r.base = "zero" THEN r.k < 0 ELSE r.k <= 0))

NumericViolated(r) == CASE r.op = "norm" -> NormViolated(r)
                        [] r.op = "product" -> ProductViolated(r)
                        [] r.op = "ew" -> EwViolated(r)
                        [] r.op = "edge" -> EdgeViolated(r)
                        [] r.op = "wholes" -> WholesViolated(r)
NumericOps == {"norm", "product", "ew", "wholes", "edge"}
=============================================================================
