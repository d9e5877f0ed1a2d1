------------------------------ MODULE SvdModel ------------------------------
(***************************************************************************)
(* The iteration that turns a bidiagonal matrix into singular values:      *)
(* deflation, splitting, QR steps and insertion of the finished values in  *)
(* order, over magnitudes (0 stands for negligible).  A QR step may have   *)
(* any effect on the block it works on; that it makes progress infinitely  *)
(* often is the assumption (convergence of the shifted QR iteration) under *)
(* which the iteration ends.  Rotations normalise pairs of numbers: the    *)
(* model shows that none of these pairs is ever zero.                      *)
(* cu and cv are the names of the columns of U and V: a value and its two  *)
(* vectors stay together when values change places.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sizes, Top          \* numbers of singular values; magnitudes 0..Top

VARIABLES n, s, e, p, cu, cv, ok
vars == <<n, s, e, p, cu, cv, ok>>

Mag == 0..Top
MaxOf(a, b) == IF a > b THEN a ELSE b
\* positions 1..n; e[i] stands between s[i] and s[i + 1], e[n] = 0
Init == /\ n \in Sizes
        /\ s \in [1..n -> Mag] /\ e \in {f \in [1..n -> {0, 1}] : f[n] = 0}
        /\ p = n /\ cu = [i \in 1..n |-> i] /\ cv = cu /\ ok = TRUE

Negligible == {i \in 1..(p - 1) : e[i] = 0}
Last(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
K == Last(Negligible)                       \* the active block is K+1..p
Zeros == {i \in (K + 1)..p : s[i] = 0}
Ks == Last(Zeros)
Case == IF K = p - 1 THEN 4 ELSE IF Zeros = {} THEN 3 ELSE IF Ks = p THEN 1 ELSE 2
Lo == IF Case = 2 THEN Ks + 1 ELSE K + 1

\* Rotations from position j downwards (case 1) or upwards (case 2) that move the number f out of the matrix.
\* A rotation of (x, f) leaves a magnitude between their maximum and Top and zero; x = 0 leaves nothing of the next element.
Grown(x, f) == {y \in Mag : y >= MaxOf(x, f)}
RECURSIVE Down(_, _, _, _), Up(_, _, _, _)
Down(j, sv, ev, good) ==                     \* the set of possible <<s, e, good>>
  IF j < Lo THEN {<<sv, ev, good>>}
  ELSE UNION {Down(j - 1, [sv EXCEPT ![j] = y], IF j # Lo /\ sv[j] = 0 THEN [ev EXCEPT ![j - 1] = 0] ELSE ev,
                   \* the next pair is (s[j-1], -sn * e[j-1])
                   good /\ (j # Lo => ev[j - 1] # 0)) : y \in Grown(sv[j], 1)}
Up(j, sv, ev, good) ==
  IF j > p THEN {<<sv, ev, good>>}
  ELSE UNION {Up(j + 1, [sv EXCEPT ![j] = y], IF sv[j] = 0 THEN [ev EXCEPT ![j] = 0] ELSE ev,
                 good /\ (j # p => ev[j] # 0)) : y \in Grown(sv[j], 1)}

Take(R) == \E r \in R : s' = r[1] /\ e' = r[2] /\ ok' = (ok /\ r[3])
Deflate == p > 0 /\ Case = 1 /\ Take(Down(p - 1, s, [e EXCEPT ![p - 1] = 0], e[p - 1] # 0)) /\ UNCHANGED <<n, p, cu, cv>>
Split == p > 0 /\ Case = 2 /\ Take(Up(Lo, s, [e EXCEPT ![Lo - 1] = 0], e[Lo - 1] # 0)) /\ UNCHANGED <<n, p, cu, cv>>
\* Any effect within the block.
Within(f, lo, hi, old) == \A i \in DOMAIN f : i \in lo..hi \/ f[i] = old[i]
QRTo(ns, ne) == /\ p > 0 /\ Case = 3 /\ s' = ns /\ e' = ne /\ ok' = (ok /\ \A i \in Lo..p : s[i] # 0 /\ (i < p => e[i] # 0))
                /\ Within(ns, Lo, p, s) /\ Within(ne, Lo, p - 1, e) /\ UNCHANGED <<n, p, cu, cv>>
QR == \E ns \in [1..n -> Mag], ne \in {f \in [1..n -> {0, 1}] : f[n] = 0} : QRTo(ns, ne)
Progress == \E ns \in [1..n -> Mag] : \E i \in Lo..(p - 1) : QRTo(ns, [e EXCEPT ![i] = 0])

\* A finished value is inserted among those after it.
Swap(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
RECURSIVE Insert(_, _)
Insert(k, t) == IF k >= n \/ t[1][k] >= t[1][k + 1] THEN t ELSE Insert(k + 1, <<Swap(t[1], k, k + 1), Swap(t[2], k, k + 1), Swap(t[3], k, k + 1)>>)
Converge == /\ p > 0 /\ Case = 4 /\ p' = p - 1
            /\ LET t == Insert(p, <<s, cu, cv>>) IN s' = t[1] /\ cu' = t[2] /\ cv' = t[3]
            /\ UNCHANGED <<n, e, ok>>

Next == Deflate \/ Split \/ QR \/ Converge
Spec == Init /\ [][Next]_vars /\ WF_vars(Deflate) /\ WF_vars(Split) /\ WF_vars(Converge) /\ WF_vars(Progress)

NoZeroPair == ok
Together == cu = cv /\ {cu[i] : i \in 1..n} = 1..n
FinishedInOrder == \A i \in (p + 1)..(n - 1) : s[i] >= s[i + 1]
FinishedApart == \A i \in p..n : i > 0 => e[i] = 0 \/ i < p
Ends == <>(p = 0)
=============================================================================
