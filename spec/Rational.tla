------------------------------ MODULE Rational ------------------------------
(* Exact rational arithmetic: <<p, q>> with q > 0 and no common factor.     *)
EXTENDS Integers, Sequences

AbsR(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(p, q) == LET s == IF q < 0 THEN -1 ELSE 1
               g == Gcd(AbsR(p), AbsR(q)) IN <<(s * p) \div g, (s * q) \div g>>
Whole(p) == <<p, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
Plus(x, y) == Q(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Minus(x, y) == Q(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
Mult(x, y) == Q(x[1] * y[1], x[2] * y[2])
Over(x, y) == Q(x[1] * y[2], x[2] * y[1])
Mag(x) == <<AbsR(x[1]), x[2]>>
Le(x, y) == x[1] * y[2] <= y[1] * x[2]
Lt(x, y) == x[1] * y[2] < y[1] * x[2]
RECURSIVE Inner(_, _, _)       \* sum of f[k] * g[k] for k <= n
Inner(f, g, n) == IF n = 0 THEN Zero ELSE Plus(Mult(f[n], g[n]), Inner(f, g, n - 1))
=============================================================================
