----------------------------- MODULE CholModel ------------------------------
(***************************************************************************)
(* The Cholesky factorisation row by row, in exact arithmetic.  Square     *)
(* roots are avoided by keeping m[j][k] = L[j][k] * L[k][k] and            *)
(* d[k] = L[k][k]^2.  Explored from every integer matrix of the given      *)
(* sizes, symmetric or not.  It succeeds exactly on the symmetric positive *)
(* definite ones (Sylvester, IntOracle), which is what Decomp.tla demands. *)
(***************************************************************************)
EXTENDS Rational, IntOracle

CONSTANTS Sizes, Vals, Break      \* Break: also matrices that differ from a symmetric one at one place
ThreeVals == {-1, 0, 1, 2, 3}
FourVals == {-1, 0, 1, 2}
VARIABLES a, m, d, j, st
vars == <<a, m, d, j, st>>

Sz == Len(a)
SymOf(f, g, n) == [i \in 1..n |-> [k \in 1..n |-> IF i = k THEN g[i] ELSE IF i < k THEN f[<<i, k>>] ELSE f[<<k, i>>]]]
Above(n) == {<<i, k>> \in (1..n) \X (1..n) : i < k}
Init == /\ \E n \in Sizes : \E f \in [Above(n) -> Vals], g \in [1..n -> Vals] :
             \/ a = SymOf(f, g, n)
             \/ Break /\ n > 1 /\ \E i \in 1..n, k \in 1..n : i # k /\ a = [SymOf(f, g, n) EXCEPT ![i][k] = @ + 1]
        /\ m = [i \in 1..Len(a) |-> [k \in 1..Len(a) |-> Zero]] /\ d = <<>> /\ j = 1 /\ st = "busy"

RECURSIVE Row(_, _)      \* m[j][1..k]
Row(r, k) == IF k = j THEN r
             ELSE LET s == Inner(r, [i \in 1..(k - 1) |-> Over(m[k][i], d[i])], k - 1) IN Row(Append(r, Minus(Whole(a[j][k]), s)), k + 1)
Step == /\ st = "busy" /\ j <= Sz
        /\ IF \E k \in 1..(j - 1) : a[k][j] # a[j][k] THEN st' = "none" /\ UNCHANGED <<m, d, j>>
           ELSE LET r == Row(<<>>, 1)
                    dj == Minus(Whole(a[j][j]), Inner(r, [i \in 1..(j - 1) |-> Over(r[i], d[i])], j - 1)) IN
                IF Le(dj, Zero) THEN st' = "none" /\ UNCHANGED <<m, d, j>>
                ELSE /\ m' = [m EXCEPT ![j] = [k \in 1..Sz |-> IF k < j THEN r[k] ELSE IF k = j THEN dj ELSE Zero]]
                     /\ d' = Append(d, dj) /\ j' = j + 1 /\ st' = IF j = Sz THEN "ok" ELSE "busy"
        /\ UNCHANGED a
Spec == Init /\ [][Step]_vars

\* The rows done so far multiply back to A: (L*L')[i][k] = sum of m[i][t] * m[k][t] / d[t].
Factored == \A i \in 1..(j - 1), k \in 1..(j - 1) : LET n == Len(d) IN Inner(m[i], [t \in 1..n |-> Over(m[k][t], d[t])], n) = Whole(a[i][k])
Verdict == /\ st = "ok" => SymmetricInt(a) /\ PositiveDefinite(a)
           /\ st = "none" => ~(SymmetricInt(a) /\ PositiveDefinite(a))
\* The certificates used for recorded matrices are sound.
Certificates == st = "none" /\ SymmetricInt(a) => ~RowDominant(a, 2) \/ \E i \in 1..Sz : a[i][i] <= 0
PositiveSoFar == \A k \in 1..Len(d) : Lt(Zero, d[k])
=============================================================================
