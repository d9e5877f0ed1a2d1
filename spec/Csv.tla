---------------------------------- MODULE Csv --------------------------------
(***************************************************************************)
(* Reading a matrix from text.  A file is a sequence of character codes;   *)
(* the code Invalid stands for a byte that is not UTF-8.  Two definitions  *)
(* of what reading means: a machine that consumes one character per step,  *)
(* and Meaning, by splitting the text.  The model (CsvModel) shows them    *)
(* equal; the test generator (GenText) uses Meaning.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Comma == 44  LF == 10  CR == 13
Invalid == 1114112
\* The white space a field loses at its ends (Unicode White_Space below U+2000, and two beyond).
White(c) == c \in (9..13) \cup {32, 133, 160, 8195, 12288}

RECURSIVE DropWhite(_), DropWhiteEnd(_)
DropWhite(s) == IF s # <<>> /\ White(Head(s)) THEN DropWhite(Tail(s)) ELSE s
DropWhiteEnd(s) == IF s # <<>> /\ White(s[Len(s)]) THEN DropWhiteEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == DropWhiteEnd(DropWhite(s))

(* ---- by splitting ---- *)
\* The pieces between separators; n separators make n + 1 pieces.
Split(s, sep) ==
  LET cuts == TLCEval(<<0>> \o SelectSeq([k \in 1..Len(s) |-> IF s[k] = sep THEN k ELSE 0], LAMBDA k : k > 0) \o <<Len(s) + 1>>)
  IN [k \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[k] + 1, cuts[k + 1] - 1)]
\* Lines are terminated, not separated, by line feeds: a final piece that is empty is no line.
LinesOf(s) == LET p == TLCEval(Split(s, LF)) IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Fields(line) == LET p == TLCEval(Split(line, Comma)) IN [k \in 1..Len(p) |-> Trim(p[k])]
Readable(s) == \A k \in 1..Len(s) : s[k] # Invalid
Rectangular(rows) == Len(rows) > 0 /\ \A k \in 1..Len(rows) : Len(rows[k]) = Len(rows[1])
Rejected == [k |-> "rej"]
TextMatrix(rows) == [k |-> "mat", m |-> rows]
Only(S) == CHOOSE x \in S : TRUE          \* (a quantified variable is evaluated once)
Meaning(s) == Only({Only({IF Readable(s) /\ Rectangular(rows) THEN TextMatrix(rows) ELSE Rejected :
                          rows \in {TLCEval([k \in 1..Len(lines) |-> Fields(lines[k])])}}) : lines \in {LinesOf(s)}})

(* ---- by consuming characters ---- *)
Start == [rows |-> <<>>, row |-> <<>>, field |-> <<>>, open |-> FALSE, bad |-> FALSE]
EndField(q) == [q EXCEPT !.row = Append(q.row, Trim(q.field)), !.field = <<>>, !.open = TRUE]
EndLine(q) == LET e == EndField(q) IN
              [e EXCEPT !.rows = Append(e.rows, e.row), !.row = <<>>, !.open = FALSE,
                        !.bad = q.bad \/ (Len(q.rows) > 0 /\ Len(e.row) # Len(q.rows[1]))]
Consume(q, c) == CASE c = Invalid -> [q EXCEPT !.bad = TRUE, !.open = TRUE]
                   [] c = LF -> EndLine(q)
                   [] c = Comma -> EndField(q)
                   [] OTHER -> [q EXCEPT !.field = Append(q.field, c), !.open = TRUE]
AtEnd(q) == LET e == IF q.open THEN EndLine(q) ELSE q IN
            IF e.bad \/ e.rows = <<>> THEN Rejected ELSE TextMatrix(e.rows)
=============================================================================
