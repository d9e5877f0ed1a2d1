-------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* The debug rendering of a matrix, given the renderings of its elements   *)
(* (sequences of character codes).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Bar == 124  Blank == 32  NewLine == 10
RECURSIVE Blanks(_), Widest(_, _), Joined(_, _, _, _), RowsText(_, _, _, _)
Blanks(k) == IF k <= 0 THEN <<>> ELSE Append(Blanks(k - 1), Blank)
MaxLen2(a, b) == IF a > b THEN a ELSE b
Widest(s, k) == IF k = 0 THEN 0 ELSE MaxLen2(Widest(s, k - 1), Len(s[k]))
Width(M) == LET w == [i \in 1..Len(M) |-> Blanks(Widest(M[i], Len(M[i])))] IN Widest(w, Len(w))
\* one blank, then the text right-aligned to the common width
Cell(t, w) == Blanks(1 + w - Len(t)) \o t
\* cells (rows) lo to hi, one after the other
Joined(row, w, lo, hi) == IF lo = hi THEN Cell(row[lo], w) ELSE LET mid == (lo + hi) \div 2 IN Joined(row, w, lo, mid) \o Joined(row, w, mid + 1, hi)
RowText(row, w) == <<Bar>> \o Joined(row, w, 1, Len(row)) \o <<Blank, Bar, NewLine>>
RowsText(M, w, lo, hi) == IF lo = hi THEN RowText(M[lo], w) ELSE LET mid == (lo + hi) \div 2 IN RowsText(M, w, lo, mid) \o RowsText(M, w, mid + 1, hi)
Rendering(M) == <<NewLine>> \o RowsText(M, Width(M), 1, Len(M))
=============================================================================
