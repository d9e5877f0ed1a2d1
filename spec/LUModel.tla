------------------------------ MODULE LUModel -------------------------------
(***************************************************************************)
(* The elimination the library documents (columns from left to right, a    *)
(* pivot of largest magnitude), in exact arithmetic, as a state machine:   *)
(* one column per step, any of the largest candidates may be the pivot.    *)
(* Explored from every integer matrix of the given shapes.  The invariants *)
(* are what Decomp.tla demands of the recorded results; so those demands   *)
(* can be met, and the determinant, singularity and solution oracles       *)
(* (IntOracle) agree with elimination whatever pivots are chosen.          *)
(***************************************************************************)
EXTENDS Rational, IntOracle

CONSTANTS Shapes, Vals
QuickShapes == {<<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
Pairs == {<<2, 2>>, <<3, 2>>}
SmallShapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>}
DeepShapes == {<<4, 3>>, <<3, 4>>, <<4, 4>>}
Signs == {-1, 0, 1}
Bits == {0, 1}
Threes == -3..3
VARIABLES a, lu, piv, even, j
vars == <<a, lu, piv, even, j>>

H == Len(a)
W == Len(a[1])
K == IF H <= W THEN H ELSE W
Init == /\ \E s \in Shapes : a \in [1..s[1] -> [1..s[2] -> Vals]]
        /\ lu = [i \in 1..Len(a) |-> [c \in 1..Len(a[1]) |-> Whole(a[i][c])]]
        /\ piv = [i \in 1..Len(a) |-> i - 1]
        /\ even = TRUE /\ j = 1

\* Column j after subtracting what the earlier columns account for, from top to bottom.
RECURSIVE Solved(_, _)
Solved(M, i) == IF i > H THEN M
                ELSE LET n == (IF i < j THEN i ELSE j) - 1
                         s == Inner([k \in 1..n |-> M[i][k]], [k \in 1..n |-> M[k][j]], n) IN
                     Solved([M EXCEPT ![i][j] = Minus(M[i][j], s)], i + 1)
Largest(M) == {p \in j..H : \A i \in j..H : Le(Mag(M[i][j]), Mag(M[p][j]))}
Divided(M) == IF j > H \/ M[j][j] = Zero THEN M ELSE [i \in 1..H |-> IF i <= j THEN M[i] ELSE [M[i] EXCEPT ![j] = Over(M[i][j], M[j][j])]]
Swap(s, p) == [s EXCEPT ![j] = s[p], ![p] = s[j]]
Column == /\ j <= W
          /\ LET M == Solved(lu, 1) IN
             IF j > H THEN lu' = M /\ UNCHANGED <<piv, even>>
             ELSE \E p \in Largest(M) : /\ lu' = Divided(Swap(M, p))
                                        /\ piv' = Swap(piv, p)
                                        /\ even' = (even = (p = j))
          /\ j' = j + 1
          /\ UNCHANGED a
Next == Column
Spec == Init /\ [][Next]_vars

L(i, k) == IF i = k THEN One ELSE IF i > k THEN lu[i][k] ELSE Zero
U(k, c) == IF k <= c THEN lu[k][c] ELSE Zero
\* The columns done so far: row piv[i] of A is row i of L*U.
Factored == \A i \in 1..H, c \in 1..(j - 1) :
   Inner([k \in 1..K |-> IF k < j \/ k <= c THEN L(i, k) ELSE Zero], [k \in 1..K |-> U(k, c)], K) = Whole(a[piv[i] + 1][c])
SmallMultipliers == \A i \in 1..H, k \in 1..K : k < j /\ i > k => Le(Mag(lu[i][k]), One)
Permutes == IsPerm(piv) /\ even = (PermSign(piv) = 1)

Done == j = W + 1
RECURSIVE Pivots(_)
Pivots(k) == IF k = 0 THEN IF even THEN One ELSE Whole(-1) ELSE Mult(Pivots(k - 1), lu[k][k])
ZeroPivot == \E k \in 1..W : lu[k][k] = Zero
Determinant == Done /\ H = W => /\ Pivots(W) = Whole(Det(a))
                                /\ ZeroPivot = (Det(a) = 0)
                                /\ (DetMod(a) # 0 => Det(a) # 0)

\* Substitution, forward through L and backward through U, for each column of the permuted identity.
RECURSIVE Forward(_, _)
Forward(y, k) == IF k > W THEN y ELSE Forward([i \in 1..W |-> IF i > k THEN Minus(y[i], Mult(y[k], lu[i][k])) ELSE y[i]], k + 1)
RECURSIVE Backward(_, _)
Backward(y, k) == IF k = 0 THEN y
                  ELSE LET x == Over(y[k], lu[k][k]) IN
                       Backward([i \in 1..W |-> IF i = k THEN x ELSE IF i < k THEN Minus(y[i], Mult(x, lu[i][k])) ELSE y[i]], k - 1)
Solution(b) == Backward(Forward([i \in 1..W |-> Whole(b[piv[i] + 1])], 1), W)
Solves == Done /\ H = W /\ ~ZeroPivot =>
   \A c \in 1..W : LET b == [i \in 1..H |-> IF i = c THEN 1 ELSE 0]
                       x == Solution(b) IN
      \A i \in 1..H : Inner([k \in 1..W |-> Whole(a[i][k])], x, W) = Whole(b[i])
\* A consistent tall system of full column rank is solved by its leading rows (after the permutation).
SolvesTall == Done /\ H > W /\ ~ZeroPivot =>
   \A z \in {[k \in 1..W |-> k], [k \in 1..W |-> 2 - k]} :
     LET b == [i \in 1..H |-> SumSeq([k \in 1..W |-> a[i][k] * z[k]], W)] IN Solution(b) = [k \in 1..W |-> Whole(z[k])]
=============================================================================
