------------------------------ MODULE GenText -------------------------------
(***************************************************************************)
(* Test generation for reading and rendering text: cases with the outcome  *)
(* Csv and Render require, one JSON object per line.                       *)
(***************************************************************************)
EXTENDS Csv, Render, FiniteSets, Json, IOUtils, SequencesExt

Prop == IOEnv.VP_PROP
Deep == IOEnv.VP_TIER = "thorough"
A1 == 97  B1 == 98  Sp == 32  Tab == 9

RECURSIVE Concat(_, _), JoinBy(_, _, _)
Concat(s, k) == IF k = 0 THEN <<>> ELSE Concat(s, k - 1) \o s[k]
JoinBy(s, sep, k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN s[1] ELSE JoinBy(s, sep, k - 1) \o sep \o s[k]

(* Texts. *)
Short == UNION {[1..l -> {A1, Sp, Comma, LF, CR, Invalid}] : l \in 0..(IF Deep THEN 7 ELSE 5)}
Odd == {A1, Comma, 9, 11, 133, 160, 233, 8195, 8203, 12288, 65279, 128512, 0, LF}
Strange == UNION {[1..l -> Odd] : l \in 1..(IF Deep THEN 4 ELSE 3)}
FieldTexts == << <<49>>, <<45, 50, 46, 53>>, <<>>, <<Sp, 51, Sp, Sp>>, <<97, Sp, 98>>, <<Tab, 49, 101, 45, 51>>, <<34, 120, 34>>, <<233, Sp>>, <<CR, 55, CR>>, <<59, 46, 39>> >>
FieldAt(i, j, s) == FieldTexts[((i * 7 + j * 3 + i * j + s) % Len(FieldTexts)) + 1]
LineEnd == << <<LF>>, <<CR, LF>> >>
\* a table with w(i) fields in row i, its line ends, with or without a final one
Table(h, w, s, e, final) ==
  LET rows == [i \in 1..h |-> JoinBy([j \in 1..w[i] |-> FieldAt(i, j, s)], <<Comma>>, w[i])] IN
  JoinBy(rows, LineEnd[e], h) \o (IF final THEN LineEnd[e] ELSE <<>>)
Tables == {Table(h, [i \in 1..h |-> w], s, e, f) : h \in 1..5, w \in 1..5, s \in 0..(IF Deep THEN 9 ELSE 3), e \in 1..2, f \in BOOLEAN}
\* one row longer or shorter than the others
Ragged == UNION {{Table(h, [i \in 1..h |-> IF i = k THEN w + d ELSE w], 0, e, f) : k \in 1..h} : h \in 1..5, w \in 2..4, d \in {-1, 1}, e \in 1..2, f \in BOOLEAN}
\* rows whose lengths differ but add up to a rectangle
Balanced == {Table(3, w, 1, 1, f) : w \in [1..3 -> 1..4], f \in BOOLEAN} \cup {Table(2, w, 2, 2, f) : w \in [1..2 -> 1..6], f \in BOOLEAN}
\* long lines, many lines, and an invalid byte far into the file
Long == LET field(k) == [t \in 1..k |-> 97 + (t % 26)]
            line(n, k) == JoinBy([j \in 1..n |-> field(k)], <<Comma>>, n) IN
        { line(3, 3000) \o <<LF>> \o line(3, 2900),
          line(40, 5) \o <<LF>> \o line(40, 7) \o <<LF>> \o line(39, 5),
          line(2, 4095) \o <<CR, LF>> \o line(2, 4096) \o <<CR, LF>>,
          Table(150, [i \in 1..150 |-> 3], 3, 1, TRUE), Table(150, [i \in 1..150 |-> IF i = 150 THEN 4 ELSE 3], 3, 2, FALSE),
          Table(100, [i \in 1..100 |-> 2], 3, 1, TRUE) \o <<Invalid>>, Table(100, [i \in 1..100 |-> 2], 3, 1, TRUE) \o <<LF>>,
          line(1, 9000) }
\* Characters of one to four bytes at every alignment to a power of two, many fields in a line, many lines, many of both.
Each(n, f(_)) == [t \in 1..n |-> f(t)]
Vast == LET cycle(d, t) == d[(t % Len(d)) + 1] IN
        {Each(9000, LAMBDA t : IF t <= a THEN 97 ELSE c) : a \in 0..3, c \in {233, 8203, 128512}}
        \cup {Each(9000, LAMBDA t : IF t = 4001 + a THEN Comma ELSE IF t <= a THEN 97 ELSE c) : a \in 0..1, c \in {233, 128512}}
        \cup {Each(n, LAMBDA t : IF t % 2 = 0 THEN Comma ELSE 97 + ((t * 7) % 26)) : n \in {515, 4097, 40001}}
        \cup {Each(n, LAMBDA t : IF t % 2 = 0 THEN LF ELSE 97 + ((t * 7) % 26)) : n \in {514, 4097, 40001}}
        \cup {Each(n, LAMBDA t : IF t % 200 = 0 THEN LF ELSE IF t % 2 = 0 THEN Comma ELSE 97 + ((t * 7 + t \div 26) % 26)) : n \in {36000, 36001, 39998, 39999}}
        \cup {Each(n, LAMBDA t : cycle(<<49, Sp, Comma, Sp, 50, CR, LF>>, t - 1)) : n \in {7000, 21000, 20999, 20995}}
\* Every visible character of ASCII: at the start and end of a file, a line, a field, on both sides of a field, inside a field, by itself.
Visible == 33..126 \ {Comma}
Placed(c) == { <<c, 97, Comma, 49, LF, 50, Comma, 51, LF>>, <<49, Comma, 50, LF, c, 97, Comma, 51, LF>>, <<49, Comma, c, 97, LF>>, <<c, 97, c, Comma, c, 98, c, LF>>,
               <<97, c, 98, Comma, 49>>, <<97, c, Comma, 98, c, LF>>, <<c, LF, c>>, <<c, c, c, Comma, c, c>>, <<c, LF, 49, Comma, 50, LF>>, <<49, Comma, 50, LF, c, LF>>,
               <<c, 49, Comma, 50, c, LF>>, <<c, 49, LF, 50, c, LF>>, <<97, Sp, c, Sp, 98, Comma, Sp, c, LF>>, <<92, c, Comma, c, 92, LF>> }
CsvCases(z) == {[op |-> "csv", s |-> t, x |-> Meaning(t)] : t \in Short \cup Strange \cup Tables \cup Ragged \cup Balanced \cup Long \cup Vast \cup UNION {Placed(c) : c \in Visible}}
            \cup {[op |-> p, s |-> <<>>, x |-> Rejected] : p \in {"csv_missing", "csv_directory"}}

(* Renderings. *)
Texts == << <<55>>, <<45, 49, 50>>, <<>>, <<49, 46, 53>>, <<78, 97, 78>>, <<97, Sp, 98>>, <<124>>, <<49, 48, 48, 48, 48, 48, 48>>, <<10>> >>
Grid(h, w, s, k) == [i \in 1..h |-> [j \in 1..w |-> Texts[((i * 5 + j * 3 + i * j * s + s) % k) + 1]]]
Wide(k) == [t \in 1..k |-> 48 + (t % 10)]
Renders == {Grid(h, w, s, k) : h \in 1..5, w \in 1..5, s \in 0..(IF Deep THEN 8 ELSE 3), k \in {1, 2, 5, 9}}
       \cup UNION {UNION {[1..h -> [1..w -> {<<>>, <<49>>, <<45, 50>>}]] : h \in {h1 \in 1..4 : h1 * w <= 4}} : w \in 1..4}
       \cup {<<<<Wide(k), <<49>>>>, <<<<>>, Wide(k - 1)>>>> : k \in {2, 9, 10, 20, 64, 300}}
       \cup {Grid(30, 1, 1, 8), Grid(1, 30, 2, 8), Grid(12, 12, 3, 9), Grid(300, 2, 1, 8), Grid(2, 300, 3, 8), Grid(70, 70, 2, 9)}
\* One element wider than all others.
Lone(h, w, p, q) == [i \in 1..h |-> [j \in 1..w |-> IF i = p /\ j = q THEN Wide(6) ELSE <<48 + ((i + j) % 10)>>]]
Lones == UNION {{Lone(d[1], d[2], p, q) : p \in {1, d[1] \div 2 + 1, d[1]}, q \in {1, d[2] \div 2 + 1, d[2]}} : d \in {<<5, 7>>, <<40, 3>>, <<3, 40>>, <<60, 60>>, <<1300, 2>>, <<2, 1300>>}}
      \cup {Lone(k, 2, k, 1) : k \in 6..70} \cup {Lone(2, k, 2, k - 1) : k \in 6..70} \cup {Lone(47, 43, p, ((p * 29) % 43) + 1) : p \in 1..(IF Deep THEN 47 ELSE 9)}
DebugCases(z) == {[op |-> "debug", s |-> <<>>, m |-> M, x |-> [k |-> "text", s |-> Rendering(M)]] : M \in Renders \cup Lones}

SeqOfCases == TLCEval(SetToSeq(IF Prop = "E01" THEN CsvCases(0) ELSE DebugCases(0)))

VARIABLES i, done      \* the case being executed
Init == i \in 1..Len(SeqOfCases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
\* The stepwise reader agrees with the required outcome.
RECURSIVE Run(_, _, _)
Run(q, s, k) == IF k > Len(s) THEN q ELSE Run(TLCEval(Consume(q, s[k])), s, k + 1)
Agrees == LET c == SeqOfCases[i] IN c.op = "csv" /\ Len(c.s) < 200 => AtEnd(Run(Start, c.s, 1)) = c.x

ASSUME ndJsonSerialize(IOEnv.VP_OUT, SeqOfCases)
=============================================================================
