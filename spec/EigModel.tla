------------------------------ MODULE EigModel ------------------------------
(***************************************************************************)
(* The two iterations that find eigenvalues, as control: which entries are *)
(* negligible, which block is worked on, when an eigenvalue or a pair of   *)
(* them is taken from the end of the matrix, by how much the diagonal has  *)
(* been shifted, and, for a symmetric matrix, the final sorting of the     *)
(* eigenvalues together with their vectors.                                *)
(* A step of the iteration may have any effect on the block it works on;   *)
(* that it makes progress infinitely often is the assumption (convergence  *)
(* of the shifted QR iteration) under which the iteration ends.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sizes, Shifts, Values

VARIABLES
  sym,      \* a symmetric matrix: values are taken from the front, otherwise from the end
  n,        \* the order
  sub,      \* sub[i] = 0: the entry between i and i + 1 is negligible (sub[n] = 0)
  at,       \* the index of the eigenvalue being looked for
  total,    \* the shifts so far
  sh,       \* sh[i]: how much has been taken off diagonal entry i and not been returned
  iter,     \* steps since the last eigenvalue
  kind,     \* kind[i]: "none", "real", "plus" or "minus" (the sign of the imaginary part)
  d, col,   \* the values and the names of the columns of V (symmetric: while sorting)
  i         \* position of the sorting (0: not yet)
vars == <<sym, n, sub, at, total, sh, iter, kind, d, col, i>>

Last(S, z) == IF S = {} THEN z ELSE CHOOSE x \in S : \A y \in S : y <= x
First(S) == CHOOSE x \in S : \A y \in S : y >= x
IterMax == 3      \* in the code the exceptional shifts come at 10 and 30; here at 1 and 3

Init == /\ sym \in BOOLEAN /\ n \in Sizes
        /\ sub \in {f \in [1..n -> {0, 1}] : f[n] = 0}
        /\ at = IF sym THEN 1 ELSE n
        /\ total = 0 /\ sh = [j \in 1..n |-> 0] /\ iter = 0 /\ kind = [j \in 1..n |-> "none"]
        /\ d = <<>> /\ col = [j \in 1..n |-> j] /\ i = 0

(* A general matrix: the active block is L..at. *)
Active == ~sym /\ at > 0
L == Last({j \in 2..at : sub[j - 1] = 0}, 1)
OneRoot == /\ Active /\ L = at
           /\ kind' = [kind EXCEPT ![at] = "real"] /\ sh' = [sh EXCEPT ![at] = @ - total]
           /\ at' = at - 1 /\ iter' = 0 /\ UNCHANGED <<sym, n, sub, total, d, col, i>>
TwoRoots == /\ Active /\ L = at - 1
            /\ \E real \in BOOLEAN :
                 /\ kind' = [kind EXCEPT ![at - 1] = IF real THEN "real" ELSE "plus", ![at] = IF real THEN "real" ELSE "minus"]
                 /\ sub' = IF real THEN [sub EXCEPT ![at - 1] = 0] ELSE sub
            /\ sh' = [sh EXCEPT ![at] = @ - total, ![at - 1] = @ - total]
            /\ at' = at - 2 /\ iter' = 0 /\ UNCHANGED <<sym, n, total, d, col, i>>
\* A double step on L..at; the exceptional shifts move the whole of the remaining diagonal.
Exceptional == iter \in {1, IterMax}
StepTo(ns) == /\ Active /\ L < at - 1
              /\ \A j \in 1..n : j \in L..(at - 1) \/ ns[j] = sub[j]
              /\ sub' = ns
              /\ \E x \in IF Exceptional THEN Shifts ELSE {0} :
                   total' = total + x /\ sh' = [j \in 1..n |-> IF j <= at THEN sh[j] + x ELSE sh[j]]
              /\ iter' = IF iter > IterMax THEN iter ELSE iter + 1
              /\ UNCHANGED <<sym, n, at, kind, d, col, i>>
Step == \E ns \in [1..n -> {0, 1}] : StepTo(ns)
Progress == \E j \in L..(at - 1) : StepTo([sub EXCEPT ![j] = 0])

(* A symmetric matrix: the active block is at..M. *)
Front == sym /\ at <= n
M == First({j \in at..n : sub[j] = 0})
Take == /\ Front /\ M = at
        /\ sh' = [sh EXCEPT ![at] = @ - total] /\ kind' = [kind EXCEPT ![at] = "real"]
        /\ at' = at + 1 /\ UNCHANGED <<sym, n, sub, total, iter, d, col, i>>
\* One implicit step: M is not looked for again before the first entry of the block is negligible.
QLTo(ns) == /\ Front /\ M > at
            /\ \A j \in 1..n : j \in at..(M - 1) \/ ns[j] = sub[j]
            /\ sub' = ns
            /\ \E x \in Shifts : total' = total + x /\ sh' = [j \in 1..n |-> IF j >= at THEN sh[j] + x ELSE sh[j]]
            /\ UNCHANGED <<sym, n, at, iter, kind, d, col, i>>
QL == \E ns \in [1..n -> {0, 1}] : QLTo(ns)
QLProgress == QLTo([sub EXCEPT ![at] = 0])

(* Sorting: the values may have come in any order. *)
Start == sym /\ at > n /\ i = 0 /\ i' = 1 /\ d' \in [1..n -> Values] /\ UNCHANGED <<sym, n, sub, at, total, sh, iter, kind, col>>
Greatest == CHOOSE k \in i..n : (\A j \in i..n : d[j] <= d[k]) /\ (\A j \in i..(k - 1) : d[j] < d[k])
Swap(f, a, b) == [f EXCEPT ![a] = f[b], ![b] = f[a]]
Sort == sym /\ i \in 1..(n - 1) /\ d' = Swap(d, i, Greatest) /\ col' = Swap(col, i, Greatest) /\ i' = i + 1
        /\ UNCHANGED <<sym, n, sub, at, total, sh, iter, kind>>

Next == OneRoot \/ TwoRoots \/ Step \/ Take \/ QL \/ Start \/ Sort
Bounded == total <= 3
Spec == Init /\ [][Next]_vars /\ WF_vars(OneRoot) /\ WF_vars(TwoRoots) /\ WF_vars(Progress)
        /\ WF_vars(Take) /\ WF_vars(QLProgress) /\ WF_vars(Start) /\ WF_vars(Sort)

Found == IF sym THEN {j \in 1..n : j < at} ELSE {j \in 1..n : j > at}
\* Every index gets its eigenvalue once; complex ones come as neighbours, the positive imaginary part first.
EachOnce == \A j \in 1..n : (kind[j] # "none") = (j \in Found)
Pairs == \A j \in 1..n : /\ kind[j] = "plus" => j < n /\ kind[j + 1] = "minus"
                         /\ kind[j] = "minus" => j > 1 /\ kind[j - 1] = "plus"
                         /\ sym => kind[j] \in {"none", "real"}
\* What was taken off the diagonal is returned: nothing is left on what was found, all of it on the rest.
Balanced == \A j \in 1..n : sh[j] = IF j \in Found THEN 0 ELSE total
\* A block that has been split off is never worked on again.
Apart == IF sym THEN at > 1 /\ at <= n => sub[at - 1] = 0
         ELSE at \in 1..(n - 1) => sub[at] = 0
\* A 2 x 2 block that remains belongs to a complex pair.
Blocks == ~sym => \A j \in 1..(n - 1) : j > at /\ sub[j] # 0 => kind[j] = "plus"
Sorted == sym => \A a, b \in 1..n : a < b /\ a < i => d[a] >= d[b]
Columns == {col[j] : j \in 1..n} = 1..n
Done == IF sym THEN i = n ELSE at = 0
Ends == <>Done
=============================================================================
