-------------------------------- MODULE Ieee --------------------------------
(***************************************************************************)
(* Scalar arithmetic on the part of IEEE-754 that integers can express:    *)
(* finite integers, the two signed zeros, the infinities and NaN.  The     *)
(* special values are encoded as integers far outside the range of finite  *)
(* values, so that every matrix element is a TLC integer.  Integer element *)
(* types are the quotient of this arithmetic in which the two zeros        *)
(* coincide (the specials do not occur).                                   *)
(***************************************************************************)
EXTENDS Integers

NaN  == 1000000001
PInf == 1000000002
NInf == 1000000003
NZ   == 1000000004          \* negative zero

IsNaN(x)    == x = NaN
IsInf(x)    == x = PInf \/ x = NInf
IsZero(x)   == x = 0 \/ x = NZ
IsSpecial(x) == x \in {NaN, PInf, NInf, NZ}
IsFinite(x) == ~IsNaN(x) /\ ~IsInf(x)

\* TRUE iff the sign bit is set (NaN has no meaningful sign).
Negative(x) == x = NInf \/ x = NZ \/ (~IsSpecial(x) /\ x < 0)
Num(x) == IF x = NZ THEN 0 ELSE x       \* numeric value of a finite one
SignedZero(neg) == IF neg THEN NZ ELSE 0
SignedInf(neg) == IF neg THEN NInf ELSE PInf

INeg(x) == CASE x = NaN  -> NaN
             [] x = PInf -> NInf
             [] x = NInf -> PInf
             [] x = NZ   -> 0
             [] x = 0    -> NZ
             [] OTHER    -> -x

IAbs(x) == IF x = NaN THEN NaN ELSE IF Negative(x) THEN INeg(x) ELSE x

IAdd(x, y) ==
  CASE IsNaN(x) \/ IsNaN(y) -> NaN
    [] IsInf(x) /\ IsInf(y) -> IF x = y THEN x ELSE NaN
    [] IsInf(x)             -> x
    [] IsInf(y)             -> y
    [] x = NZ /\ y = NZ     -> NZ
    [] OTHER                -> Num(x) + Num(y)

ISub(x, y) == IF IsNaN(y) THEN NaN ELSE IAdd(x, INeg(y))

IMul(x, y) ==
  LET neg == Negative(x) # Negative(y) IN
  CASE IsNaN(x) \/ IsNaN(y) -> NaN
    [] IsInf(x) \/ IsInf(y) -> IF IsZero(x) \/ IsZero(y) THEN NaN ELSE SignedInf(neg)
    [] IsZero(x) \/ IsZero(y) -> SignedZero(neg)
    [] OTHER                -> x * y

\* Defined only where the quotient of two finite values is an integer.
AbsI(x) == IF x < 0 THEN -x ELSE x
DivDefined(x, y) == \/ ~IsFinite(x) \/ ~IsFinite(y) \/ IsZero(y)
                    \/ AbsI(Num(x)) % AbsI(Num(y)) = 0
IDiv(x, y) ==
  LET neg == Negative(x) # Negative(y) IN
  CASE IsNaN(x) \/ IsNaN(y)  -> NaN
    [] IsInf(x) /\ IsInf(y)  -> NaN
    [] IsInf(x)              -> SignedInf(neg)
    [] IsInf(y)              -> SignedZero(neg)
    [] IsZero(x) /\ IsZero(y) -> NaN
    [] IsZero(y)             -> SignedInf(neg)
    [] IsZero(x)             -> SignedZero(neg)
    [] OTHER                 -> (IF neg THEN -1 ELSE 1) * (AbsI(x) \div AbsI(y))

\* Equality and order as IEEE defines them.
IEq(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ (x = y \/ (IsZero(x) /\ IsZero(y)))

\* Identify the two zeros (used where only the numeric value is specified).
Canon(x) == IF x = NZ THEN 0 ELSE x
=============================================================================
