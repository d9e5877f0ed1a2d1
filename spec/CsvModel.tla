------------------------------- MODULE CsvModel ------------------------------
(* The reading machine: every text up to MaxLen over Alphabet, one character per step. *)
EXTENDS Csv
CONSTANTS Alphabet, MaxLen
VARIABLES text, q
vars == <<text, q>>
Init == text = <<>> /\ q = Start
Next == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c) /\ q' = Consume(q, c)
Spec == Init /\ [][Next]_vars

\* Reading stepwise and by splitting agree on every text.
Agrees == AtEnd(q) = Meaning(text)
\* A final line terminator is optional.
FinalTerminator == LET m == Meaning(text) IN
                   text # <<>> /\ text[Len(text)] # LF => Meaning(Append(text, LF)) = m
\* Both line-end conventions are accepted.
RECURSIVE Crlf(_)
Crlf(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = LF THEN <<CR, LF>> ELSE <<Head(s)>>) \o Crlf(Tail(s))
LineEnds == Meaning(Crlf(text)) = Meaning(text)
\* White space next to a separator is immaterial.
Padded == Meaning(text \o <<32>>) = Meaning(text) \/ text = <<>> \/ text[Len(text)] = LF
\* A matrix that was read is rectangular and its fields contain no separator.
WellFormed == LET m == Meaning(text) IN m.k = "mat" =>
   /\ Rectangular(m.m)
   /\ \A i \in 1..Len(m.m) : \A j \in 1..Len(m.m[i]) : \A k \in 1..Len(m.m[i][j]) : m.m[i][j][k] \notin {Comma, LF, Invalid}
=============================================================================
