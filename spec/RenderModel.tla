----------------------------- MODULE RenderModel -----------------------------
(* Matrices of texts grown one element at a time; the rendering's shape laws. *)
EXTENDS Render
CONSTANT MaxSize
Texts == {<<>>, <<49>>, <<45, 50>>, <<97, 32, 98>>}
VARIABLE M
Init == \E t \in Texts : M = <<<<t>>>>
\* a new column or a new row of copies of one text, or a change of one element
Next == \/ /\ Len(M[1]) < MaxSize
           /\ \E t \in Texts : M' = [i \in 1..Len(M) |-> Append(M[i], t)]
        \/ /\ Len(M) < MaxSize
           /\ \E t \in Texts : M' = Append(M, [j \in 1..Len(M[1]) |-> t])
        \/ \E i \in 1..Len(M), j \in 1..Len(M[1]), t \in Texts : M' = [M EXCEPT ![i][j] = t]
Spec == Init /\ [][Next]_M
Lines == LET s == Rendering(M) IN {k \in 1..Len(s) : s[k] = NewLine}
Shape == LET s == Rendering(M)  w == Width(M)  per == 4 + Len(M[1]) * (w + 1) - 1 IN
         /\ Len(s) = 1 + Len(M) * (per + 1)
         /\ Lines = {1 + k * (per + 1) : k \in 0..Len(M)}
\* every element can be read back at its place
ReadBack == LET s == Rendering(M)  w == Width(M)  per == 4 + Len(M[1]) * (w + 1) IN
            \A i \in 1..Len(M) : \A j \in 1..Len(M[1]) :
              LET end == 1 + (i - 1) * per + 1 + j * (w + 1)  t == M[i][j] IN
              /\ SubSeq(s, end - Len(t) + 1, end) = t
              /\ \A k \in (end - w)..(end - Len(t)) : s[k] = Blank
=============================================================================
