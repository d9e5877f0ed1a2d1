-------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Exact fixed-point arithmetic on multi-digit numbers, for judging        *)
(* results of floating-point computations with integers only.              *)
(*                                                                         *)
(* A number is a sequence of nl balanced digits in base 4096; with an      *)
(* exponent e held by its matrix it stands for                             *)
(*         2^e * SUM_k d[k] * 4096^(-k),     |value| < 2^e.                *)
(* Intermediate sums are slot sequences: slot t has weight 4096^(-t) and   *)
(* holds any integer.  The unit of tolerances is 4096^(-nl).  A product of *)
(* two numbers drops terms below slot nl+1, i.e. less than 2 units.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Base == 4096
(* A value is bound by a quantifier where TLC would otherwise evaluate its *)
(* definition again at each use: The({e(x) : x \in {x0}}) is e(x0).        *)
The(S) == CHOOSE x \in S : TRUE

RECURSIVE D2(_, _, _), D3(_, _, _), D4(_, _, _), D5(_, _, _)
D2(x, y, k) == IF k = 0 THEN 0 ELSE x[k][1] * y[k][1] + D2(x, y, k - 1)
D3(x, y, k) == IF k = 0 THEN 0 ELSE x[k][1] * y[k][2] + x[k][2] * y[k][1] + D3(x, y, k - 1)
D4(x, y, k) == IF k = 0 THEN 0 ELSE x[k][1] * y[k][3] + x[k][2] * y[k][2] + x[k][3] * y[k][1] + D4(x, y, k - 1)
D5(x, y, k) == IF k = 0 THEN 0
               ELSE x[k][1] * y[k][4] + x[k][2] * y[k][3] + x[k][3] * y[k][2] + x[k][4] * y[k][1] + D5(x, y, k - 1)

\* Slots 1..nl+1 of the scalar product of two sequences of n numbers.
DotShort(x, y, n, nl) == IF nl = 3 THEN <<0, D2(x, y, n), D3(x, y, n), D4(x, y, n)>>
                                   ELSE <<0, D2(x, y, n), D3(x, y, n), D4(x, y, n), D5(x, y, n)>>
Times(a, b, nl) == DotShort(<<a>>, <<b>>, 1, nl)

\* Slot sequences are added and subtracted slotwise; a number is a slot sequence whose last slot is 0.
AddS(s, u) == TLCEval([t \in 1..Len(s) |-> s[t] + u[t]])
SubS(s, u) == TLCEval([t \in 1..Len(s) |-> s[t] - u[t]])
NegS(s) == TLCEval([t \in 1..Len(s) |-> -s[t]])
ScaleS(c, s) == TLCEval([t \in 1..Len(s) |-> c * s[t]])
Slots(d) == Append(d, 0)
ZeroS(nl) == [t \in 1..(nl + 1) |-> 0]

CarryOf(v) == (v + 2048) \div Base
\* Rounds a slot sequence to a number (balanced digits, the first one unbounded).
Round(s0, nl) ==
  IF nl = 3
  THEN The({LET v3 == s[3] + CarryOf(s[4])
                v2 == s[2] + CarryOf(v3)
                v1 == s[1] + CarryOf(v2)
            IN <<v1, v2 - Base * CarryOf(v2), v3 - Base * CarryOf(v3)>> : s \in {s0}})
  ELSE The({LET v4 == s[4] + CarryOf(s[5])
                v3 == s[3] + CarryOf(v4)
                v2 == s[2] + CarryOf(v3)
                v1 == s[1] + CarryOf(v2)
            IN <<v1, v2 - Base * CarryOf(v2), v3 - Base * CarryOf(v3), v4 - Base * CarryOf(v4)>> : s \in {s0}})

\* Long scalar products are summed in parts, so that the slots stay below 2^31 (each part is rounded: at most one unit).
RECURSIVE Dot(_, _, _, _)
Dot(x, y, n, nl) ==
  IF n <= 100 THEN DotShort(x, y, n, nl)
  ELSE AddS(Slots(Round(DotShort(SubSeq(x, n - 79, n), SubSeq(y, n - 79, n), 80, nl), nl)), Dot(x, y, n - 80, nl))

\* |number| <= tol units; tol < 2^30.
WithinN(d, nl, tol) ==
  IF nl = 3
  THEN d[1] \in -63..63 /\ LET w == d[1] * 16777216 + d[2] * 4096 + d[3] IN w <= tol /\ -w <= tol
  ELSE d[1] = 0 /\ d[2] \in -63..63 /\ LET w == d[2] * 16777216 + d[3] * 4096 + d[4] IN w <= tol /\ -w <= tol
Within(s, nl, tol) == WithinN(Round(s, nl), nl, tol)

\* The sign of a number with balanced digits.
RECURSIVE SignFrom(_, _)
SignFrom(d, k) == IF k > Len(d) THEN 0 ELSE IF d[k] > 0 THEN 1 ELSE IF d[k] < 0 THEN -1 ELSE SignFrom(d, k + 1)
Sign(d) == SignFrom(d, 1)
IsZeroNum(d) == \A k \in 1..Len(d) : d[k] = 0
\* Exact zero: the recorder keeps every nonzero value nonzero.

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

\* The integer v (|v| < 2^18) at exponent e >= 0, i.e. v * 2^(-e), as slots (the first slot may exceed a digit).
IntAt(v, e, nl) == LET q == e \div 12  r == e % 12 IN
                   [t \in 1..(nl + 1) |-> IF r = 0 THEN (IF q = 0 THEN (IF t = 1 THEN v * Base ELSE 0) ELSE IF t = q THEN v ELSE 0)
                                          ELSE IF t = q + 1 THEN v * Pow2(12 - r) ELSE 0]

\* The number divided by 2^k, 0 < k < 12 (exponent raised by k).
Down(d, k, nl) == LET f == Pow2(12 - k) IN Round(TLCEval([t \in 1..(nl + 1) |-> (IF t = 1 THEN 0 ELSE d[t - 1] * f)]), nl)

\* The number divided by 2^k, any k >= 0, as a number.
Shift(d, k, nl) == LET q == k \div 12  r == k % 12
                       moved == [t \in 1..(nl + 1) |-> IF t - q \in 1..nl THEN d[t - q] ELSE 0]
                       whole == [t \in 1..nl |-> moved[t]]
                   IN IF r = 0 THEN Round(Slots(whole), nl) ELSE Down(whole, r, nl)

(* ---- matrices of numbers: sequences of rows ---- *)
TransposeF(M0) == The({TLCEval([j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]) : M \in {M0}})
(* Equations between large matrices are judged on a few vectors z with     *)
(* entries 1 and -1: X*(Y*z) = Z*z.  (An equation that holds within a      *)
(* tolerance elementwise holds within the same tolerance when both sides   *)
(* are divided by 128, which is what Combine does; up to 300 columns.)     *)
Large(n) == n > 48
Probes == 1..4
ProbeSign(t, j) == IF ((j * (2 * t + 3) + j * j * (t + 1) + (j \div 3)) % 11) % 2 = 0 THEN 1 ELSE -1
Signs == [t \in Probes |-> [j \in 1..300 |-> ProbeSign(t, j)]]
RECURSIVE SignedDigit(_, _, _, _)
SignedDigit(f, g, p, k) == IF k = 0 THEN 0 ELSE g[k] * f[k][p] + SignedDigit(f, g, p, k - 1)
\* (sum of z_j * f_j) / 128 for a sequence f of numbers
Combine(f, t, nl) == LET g == Signs[t]  n == Len(f) IN
                     Down(Round(TLCEval([p \in 1..(nl + 1) |-> IF p > nl THEN 0 ELSE SignedDigit(f, g, p, n)]), nl), 7, nl)
\* Y * z / 128, and z itself / 128 at exponent e
TimesProbe(Y, t, nl) == TLCEval([k \in 1..Len(Y) |-> Combine(Y[k], t, nl)])
ProbeAt(t, i, e, nl) == LET s == IntAt(1, e + 7, nl) IN IF ProbeSign(t, i) = 1 THEN s ELSE NegS(s)

\* X * Y - Z within tol everywhere (Y given by its columns).
ProductIs(X, Yt, Z, nl, tol) ==
  IF Large(Len(Yt)) /\ Large(Len(X))
  THEN \A t \in Probes : LET w == TimesProbe(TransposeF(Yt), t, nl) IN
         \A i \in 1..Len(X) : Within(SubS(Dot(X[i], w, Len(w), nl), Slots(Combine(Z[i], t, nl))), nl, tol)
  ELSE \A i \in 1..Len(X) : \A j \in 1..Len(Yt) :
         Within(SubS(Dot(X[i], Yt[j], Len(Yt[j]), nl), Slots(Z[i][j])), nl, tol)
ProductF(X0, Yt0, nl) == The({TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(Yt) |-> Round(Dot(X[i], Yt[j], Len(Yt[j]), nl), nl)]]) : X \in {X0}, Yt \in {Yt0}})
DownM(M0, k, nl) == The({TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[1]) |-> Down(M[i][j], k, nl)]]) : M \in {M0}})
\* The rows of M are orthonormal; M has exponent e.
RowsOrthonormal(M, e, nl, tol) ==
  IF Large(Len(M))
  THEN \A t \in Probes : LET w == TimesProbe(TransposeF(M), t, nl) IN
         \A i \in 1..Len(M) : Within(SubS(Dot(M[i], w, Len(w), nl), ProbeAt(t, i, 2 * e, nl)), nl, tol)
  ELSE \A i \in 1..Len(M) : \A j \in 1..i :
         Within(SubS(Dot(M[i], M[j], Len(M[i]), nl), IntAt(IF i = j THEN 1 ELSE 0, 2 * e, nl)), nl, tol)
=============================================================================
