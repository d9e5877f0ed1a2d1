------------------------------ MODULE IntOracle -----------------------------
(***************************************************************************)
(* Exact linear algebra on small integer matrices: determinants by         *)
(* fraction-free elimination, leading minors, definiteness, rank.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

N(M) == Len(M)
SwapRows(M, i, j) == [M EXCEPT ![i] = M[j], ![j] = M[i]]

\* Bareiss elimination: M has been reduced up to column k-1, prev is the previous pivot.
RECURSIVE Bareiss(_, _, _, _)
Bareiss(M, k, prev, sign) ==
  IF k > N(M) THEN sign * prev
  ELSE LET P == {i \in k..N(M) : M[i][k] # 0} IN
       IF P = {} THEN 0
       ELSE LET p == CHOOSE i \in P : \A j \in P : i <= j
                W == SwapRows(M, k, p)
                V == TLCEval([i \in 1..N(M) |-> IF i <= k THEN W[i]
                       ELSE [j \in 1..N(M) |-> IF j <= k THEN 0 ELSE (W[i][j] * W[k][k] - W[i][k] * W[k][j]) \div prev]])
            IN Bareiss(V, k + 1, W[k][k], IF p = k THEN sign ELSE -sign)
Det(M) == Bareiss(M, 1, 1, 1)

Leading(M, k) == [i \in 1..k |-> [j \in 1..k |-> M[i][j]]]
LeadingMinors(M) == [k \in 1..N(M) |-> Det(Leading(M, k))]
SymmetricInt(M) == N(M) = Len(M[1]) /\ \A i \in 1..N(M) : \A j \in 1..i : M[i][j] = M[j][i]
PositiveDefinite(M) == \A k \in 1..N(M) : LeadingMinors(M)[k] > 0        \* Sylvester
\* Some leading minor is negative: no real factorisation, beyond any rounding.
HasNegativeMinor(M) == \E k \in 1..N(M) : LeadingMinors(M)[k] < 0

(* ---- modulo a prime: any size ---- *)
Prime == 32749
Mod(x) == x % Prime
RECURSIVE PowMod(_, _)
PowMod(b, k) == IF k = 0 THEN 1 ELSE IF k % 2 = 0 THEN PowMod(Mod(b * b), k \div 2) ELSE Mod(b * PowMod(b, k - 1))
Inv(x) == PowMod(x, Prime - 2)
RECURSIVE ElimMod(_, _, _)
ElimMod(M, k, det) ==
  IF k > N(M) THEN det
  ELSE LET P == {i \in k..N(M) : M[i][k] # 0} IN
       IF P = {} THEN 0
       ELSE LET p == CHOOSE i \in P : \A j \in P : i <= j
                W == SwapRows(M, k, p)
                f == Inv(W[k][k])
                V == TLCEval([i \in 1..N(M) |-> IF i <= k THEN W[i]
                       ELSE LET g == Mod(W[i][k] * f) IN [j \in 1..N(M) |-> Mod(W[i][j] - Mod(g * W[k][j]))]])
            IN ElimMod(V, k + 1, Mod((IF p = k THEN det ELSE -det) * W[k][k]))
DetMod(M) == ElimMod(TLCEval([i \in 1..N(M) |-> [j \in 1..N(M) |-> Mod(M[i][j])]]), 1, 1)

(* ---- certificates ---- *)
AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
OffSum(r, i) == SumSeq([j \in 1..Len(r) |-> IF j = i THEN 0 ELSE AbsV(r[j])], Len(r))
\* Each row i <= Len(M[1]) has a diagonal at least c times the sum of the others.
RowDominant(M, c) == \A i \in 1..N(M) : AbsV(M[i][i]) > 0 /\ AbsV(M[i][i]) >= c * OffSum(M[i], i)

\* Permutations and their sign; s is a sequence over 0..Len(s)-1.
IsPerm(s) == {s[i] : i \in 1..Len(s)} = 0..(Len(s) - 1)
RECURSIVE Inversions(_, _)
Inversions(s, k) == IF k = 0 THEN 0 ELSE Cardinality({i \in 1..(k - 1) : s[i] > s[k]}) + Inversions(s, k - 1)
PermSign(s) == IF Inversions(s, Len(s)) % 2 = 0 THEN 1 ELSE -1
=============================================================================
