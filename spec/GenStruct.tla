----------------------------- MODULE GenStruct ------------------------------
(***************************************************************************)
(* Test generation from MatrixOps: the set of cases for one property, each *)
(* with the outcome the specification requires, written as one JSON object *)
(* per line.  The driver replays every case against the library.           *)
(* The cases are also explored as a state machine (one call per state) so  *)
(* that the laws of the specification are evaluated on every case.         *)
(***************************************************************************)
EXTENDS MatrixOps, Json, IOUtils, SequencesExt

Prop == IOEnv.VP_PROP
Deep == IOEnv.VP_TIER = "thorough"

None == <<>>
Case(op, A, B, n) == [op |-> op, a |-> A, b |-> B, n |-> n]

(* ---- matrices used as operands ---- *)
Generic(r, c)  == MkMat(r, c, LAMBDA i, j : 1 + i * c + j)            \* all elements distinct
Generic2(r, c) == MkMat(r, c, LAMBDA i, j : 1001 + i * c + j)
Small(r, c, s) == MkMat(r, c, LAMBDA i, j : (((i * 7 + j * 3 + i * j + s * 5) * (s + 3)) % 7) - 3)
Pattern == <<1, -2, 0, 3, NZ, -5, PInf, 2, NInf, 7, NaN, -1>>
Spec1(r, c, s) == MkMat(r, c, LAMBDA i, j : Pattern[((i * c + j + s) % 12) + 1])
Nonzero(r, c) == MkMat(r, c, LAMBDA i, j : <<1, -2, 3, -1, 2, -3>>[((i * c + j) % 6) + 1])
Multiple(r, c, f) == MkMat(r, c, LAMBDA i, j : At(Nonzero(r, c), i, j) * (i + 2 * j - f))
D == <<0, NZ, 1, -1, 2, -3, 6, PInf, NInf, NaN>>
PairL == MkMat(10, 10, LAMBDA i, j : D[i + 1])
PairR == MkMat(10, 10, LAMBDA i, j : D[j + 1])
\* the same with 6 replaced where a quotient would not be an integer
PairQ == MkMat(10, 10, LAMBDA i, j : IF DivDefined(D[j + 1], D[i + 1]) THEN D[i + 1] ELSE 1)

Dim == IF Deep THEN 5 ELSE 4
Shapes(k) == (1..k) \X (1..k)
BigShapes == {<<1, 40>>, <<40, 1>>, <<33, 33>>, <<17, 35>>, <<70, 2>>, <<2, 70>>, <<64, 64>>}
MidShapes == {<<1, 7>>, <<7, 1>>, <<6, 9>>, <<9, 6>>, <<8, 8>>, <<5, 11>>}
Gs(S) == {Generic(s[1], s[2]) : s \in S}
SeqsUpTo(S, k) == UNION {[1..l -> S] : l \in 0..k}
Flags(k) == [1..k -> {0, 1}]
Iota(k) == [i \in 1..k |-> i]

C01(deep) == {Case("new", None, None, <<r, c>> \o Iota(k)) : r \in 0..4, c \in 0..4, k \in 0..18}
  \cup UNION {{Case("new", None, None, <<s[1], s[2]>> \o Iota(s[1] * s[2] + e)) : e \in {0, 1, -1, s[1], s[2], -s[1]}} : s \in MidShapes \cup {<<17, 35>>, <<33, 33>>}}
  \cup {Case(op, None, None, Iota(k)) : op \in {"vector", "row_vector", "diag"}, k \in (0..9) \cup {17, 40}}
  \cup {Case(op, None, None, <<r, c>>) : op \in {"id", "zero"}, r \in 1..7, c \in 1..7}
  \cup {Case(op, None, None, s) : op \in {"id", "zero"}, s \in BigShapes}
  \cup {Case("block_diag", None, None, <<r, c>> \o Iota(k)) : r \in 1..5, c \in 1..5, k \in 0..7}
  \cup {Case("block_diag", None, None, <<s[1], s[2]>> \o Iota(Min(s[1], s[2]) + e)) : s \in BigShapes, e \in {0, 1}}
  \cup {Case(op, None, None, <<k>>) : op \in {"zero_vector", "one_vector"}, k \in (1..9) \cup {40, 200}}
  \cup {Case("literal", None, None, <<k>>) : k \in 1..Len(Literals)}
  \cup {Case("random", None, None, <<r, c>>) : r \in 1..5, c \in 1..5} \cup {Case("random", None, None, <<30, 50>>), Case("random", None, None, <<1500, 1000, IF deep THEN 600 ELSE 160>>)}
  \cup {Case(op, Generic(s[1], s[2]), None, None) : op \in {"rows", "cols", "get_data", "clone"}, s \in Shapes(4) \cup BigShapes}

AccessIdx(k) == (0..(k + 1)) \cup {-1, 2 * k, k * k}              \* -1 stands for the largest index
C02(deep) == UNION {{Case(op, A, None, <<i, j>>) : op \in Reads, i \in AccessIdx(R(A)), j \in AccessIdx(C(A))} : A \in Gs(Shapes(Dim))}
  \cup UNION {{Case(op, A, None, <<i, j, 999>>) : op \in Writes, i \in AccessIdx(R(A)), j \in AccessIdx(C(A))} : A \in Gs(Shapes(Dim))}
  \cup UNION {{Case("set_data", A, None, <<k, 999>>) : k \in 0..(R(A) * C(A) + 1)} : A \in Gs(Shapes(4))}
  \cup UNION {{Case(op, A, None, <<i, j, 999>>) : op \in Reads \cup Writes, i \in {0, R(A) - 1, R(A)}, j \in {0, C(A) - 1, C(A)}} : A \in Gs(MidShapes \cup BigShapes)}
  \cup {Case("get_data", A, None, None) : A \in Gs(Shapes(Dim) \cup MidShapes)}

C03(deep) == LET S == Shapes(IF deep THEN 24 ELSE 12) \cup BigShapes
                \cup {<<r, c>> \in (13..20) \X (2..20) : (r + c) % 3 = 0 \/ deep}
       IN {Case(op, Generic(s[1], s[2]), None, None) : op \in {"t", "mt"}, s \in S}
     \cup {Case(op, Spec1(s[1], s[2], 0), None, None) : op \in {"t", "mt"}, s \in Shapes(5)}

C04(deep) == UNION {{Case("sub_matrix", A, None, <<i, j, k, l>>) :
                 i \in 0..R(A), k \in 0..(R(A) + 1), j \in 0..C(A), l \in 0..(C(A) + 1)} : A \in Gs(Shapes(IF deep THEN 5 ELSE 3))}
  \cup UNION {{Case("sub_matrix", A, None, <<i, j, k, l>>) : i \in {0, 1, R(A) - 1}, k \in {1, R(A) - 1, R(A), R(A) + 1},
                 j \in {0, 1, C(A) - 1}, l \in {1, C(A) - 1, C(A), C(A) + 1}} : A \in Gs(Shapes(5) \cup MidShapes \cup BigShapes)}
  \cup UNION {{Case("sub_matrix", A, None, <<i, j, k, l>>) : i \in {0, R(A) - 1}, k \in {-1, R(A)}, j \in {0, C(A) - 1}, l \in {-1, C(A)}} : A \in Gs(Shapes(3))}
  \cup UNION {{Case("minor", A, None, <<i, j>>) : i \in AccessIdx(R(A)), j \in AccessIdx(C(A))} : A \in Gs(Shapes(Dim + 1) \cup MidShapes)}
  \cup UNION {{Case("minor", A, None, <<i, j>>) : i \in {0, 1, R(A) - 1}, j \in {0, C(A) \div 2, C(A) - 1}} : A \in Gs(BigShapes)}
  \cup UNION {{Case("get_column", A, None, <<j>>) : j \in AccessIdx(C(A))} : A \in Gs(Shapes(Dim + 1) \cup MidShapes \cup BigShapes)}

C05(deep) == {Case(op, Generic(s[1], s[2]), Generic2(t[1], t[2]), None) : op \in {"cr", "cb", "bitor"}, s \in Shapes(Dim), t \in Shapes(Dim)}
  \cup {Case(op, Generic(s[1], s[2]), Generic2(t[1], t[2]), None) : op \in {"cr", "cb", "bitor"}, s \in BigShapes \cup MidShapes, t \in BigShapes \cup MidShapes}
  \cup {Case(op, Spec1(s[1], s[2], 3), Spec1(s[1], s[2], 7), None) : op \in {"cr", "cb", "bitor"}, s \in Shapes(4)}
  \cup {Case(op, Generic(s[1], s[2]), Generic(s[1], s[2]), None) : op \in {"cr", "cb"}, s \in Shapes(Dim) \cup MidShapes \cup BigShapes}

PickSeqs(k, deep) == {q \in SeqsUpTo(0..k, 3) : Len(q) > 0}
           \cup (IF k <= 3 \/ deep THEN [1..4 -> 0..Min(k, 4)] ELSE {})
           \cup {[i \in 1..k |-> k - i], [i \in 1..k |-> i % k], [i \in 1..(2 * k) |-> (i * 3) % k], [i \in 1..k |-> IF i = k THEN -1 ELSE 0]}
C06(deep) == UNION {{Case("permute_rows", A, None, q) : q \in PickSeqs(R(A), deep)} : A \in Gs({<<r, c>> \in Shapes(4) : r + c <= 6})}
  \cup UNION {{Case("permute_columns", A, None, q) : q \in PickSeqs(C(A), deep)} : A \in Gs({<<r, c>> \in Shapes(4) : r + c <= 6})}
  \cup UNION {{Case("select_rows", A, None, f), Case("select_columns", A, None, f)} : A \in Gs(Shapes(4)), f \in SeqsUpTo({0, 1}, 5)}
  \cup UNION {{Case("filter_rows", A, None, f) : f \in Flags(R(A))} : A \in Gs(Shapes(5))}
  \cup UNION {{Case("filter_columns", A, None, f) : f \in Flags(C(A))} : A \in Gs(Shapes(5))}
  \cup {Case(op, A, None, None) : op \in {"filter_rows_calls", "filter_columns_calls"}, A \in Gs(Shapes(5) \cup MidShapes)}
  \cup UNION {LET ev(k) == [i \in 1..k |-> IF i % 3 = 1 THEN 1 ELSE 0]  od(k) == [i \in 1..k |-> IF i = k THEN 1 ELSE 0]
                  rv(k) == [i \in 1..k |-> k - i]
              IN {Case("select_rows", A, None, ev(R(A))), Case("select_columns", A, None, od(C(A))), Case("select_rows", A, None, od(R(A))),
                  Case("filter_rows", A, None, ev(R(A))), Case("filter_columns", A, None, ev(C(A))),
                  Case("permute_rows", A, None, rv(R(A))), Case("permute_columns", A, None, rv(C(A)))} : A \in Gs(MidShapes \cup BigShapes)}

Ew2 == Adds \cup Subs \cup {"elem_mul", "madd", "msub", "melem_mul"}
Quo == {"elem_div", "melem_div"}
Ew1 == {"neg_r", "neg_v", "mneg"}
EwShapes == Shapes(Dim) \cup MidShapes
C07(deep) == {Case(op, PairL, PairR, None) : op \in Ew2}
  \cup {Case(op, PairR, PairQ, None) : op \in Quo}
  \cup {Case(op, Small(s[1], s[2], k), Small(s[1], s[2], k + 1), None) : op \in Ew2, s \in EwShapes, k \in 0..2}
  \cup {Case(op, Spec1(s[1], s[2], 1), Spec1(s[1], s[2], 1), None) : op \in Ew2, s \in EwShapes}
  \cup {Case(op, Nonzero(s[1], s[2]), Nonzero(s[1], s[2]), None) : op \in Ew2 \cup Quo, s \in EwShapes \cup BigShapes}
  \cup {Case(op, PairQ, PairQ, None) : op \in Ew2}
  \cup {Case(op, Generic(s[1], s[2]), Generic2(s[1], s[2]), None) : op \in Ew2, s \in EwShapes \cup BigShapes}
  \cup {Case(op, Spec1(s[1], s[2], 1), Spec1(s[1], s[2], 4), None) : op \in Ew2, s \in EwShapes}
  \cup {Case(op, Multiple(s[1], s[2], k), Nonzero(s[1], s[2]), None) : op \in Quo, s \in EwShapes \cup BigShapes, k \in 0..2}
  \cup {Case(op, A, None, None) : op \in Ew1, A \in {Small(s[1], s[2], 1) : s \in EwShapes \cup BigShapes} \cup {PairL} \cup {Spec1(s[1], s[2], 2) : s \in EwShapes}}
  \cup {Case(op, A, None, <<f>>) : op \in {"scale", "mscale"}, f \in {0, 1, -1, 2, -3, 5}, A \in {Small(s[1], s[2], 2) : s \in EwShapes}}
  \cup {Case(op, PairL, None, <<D[i]>>) : op \in {"scale", "mscale"}, i \in 1..10}
  \cup {Case(op, Generic(s[1], s[2]), None, <<f>>) : op \in {"scale", "mscale"}, f \in {3, -2}, s \in BigShapes}
  \cup {Case(op, A, None, <<f>>) : op \in {"map", "mmap"}, f \in 0..4, A \in {Small(s[1], s[2], 3) : s \in EwShapes \cup BigShapes}}
  \cup UNION {{Case("reduce", A, None, <<f>> \o [i \in 1..C(A) |-> i * i - 2]) : f \in 0..3} : A \in {Small(s[1], s[2], 4) : s \in EwShapes \cup {<<1, 40>>, <<2, 70>>}}}
  \cup UNION {{Case("reduce", A, None, <<1>> \o [i \in 1..C(A) |-> i * i - 2]) : f \in 0..3} : A \in {Small(s[1], s[2], 4) : s \in BigShapes}}

AllMul == Muls \cup {"mmul"}
C08(deep) == {Case(op, Small(r, k, 0), Small(k, c, 1), None) : op \in AllMul, r \in 1..Dim, k \in 1..Dim, c \in 1..Dim}
  \cup {Case(op, Small(k, k, s), Small(k, k, s), None) : op \in AllMul, k \in (1..Dim) \cup {9, 17}, s \in 0..2}
  \cup {Case(op, Generic(r, k), Generic2(k, c), None) : op \in {"mul_rr", "mmul"}, r \in 1..Dim, k \in 1..Dim, c \in 1..Dim}
  \cup {Case(op, Spec1(r, k, 0), Spec1(k, c, 5), None) : op \in {"mul_rr", "mmul"}, r \in 1..3, k \in 1..3, c \in 1..3}
  \cup {Case(op, Small(s[1], s[2], 2), Small(s[2], s[3], 3), None) : op \in AllMul,
           s \in {<<1, 70, 1>>, <<70, 1, 3>>, <<17, 33, 9>>, <<8, 16, 8>>, <<16, 8, 32>>, <<32, 32, 32>>, <<5, 64, 2>>, <<9, 9, 9>>, <<3, 10, 65>>, <<11, 7, 13>>}}
  \cup {Case("mul_rr", Const(1, 2, 0), Const(2, 1, 0), None)}

C09(deep) == {Case(op, Small(s[1], s[2], 0), Small(s[1], s[2], 0), None) : op \in Muls \cup {"mmul"}, s \in {<<r, c>> \in Shapes(4) : r # c}}
  \cup {Case(op, Small(s[1], s[2], 0), Nonzero(t[1], t[2]), None) :
           op \in Binary \ {"eq", "ne", "approx_eq"}, s \in Shapes(IF deep THEN 4 ELSE 3), t \in Shapes(IF deep THEN 4 ELSE 3)}
  \cup {Case(op, Small(s[1], s[2], 0), Nonzero(t[1], t[2]), None) :
           op \in Binary \ {"eq", "ne", "approx_eq"}, s \in {<<2, 6>>, <<6, 2>>, <<3, 4>>, <<4, 3>>, <<12, 1>>, <<1, 12>>, <<1, 1>>, <<4, 4>>, <<16, 1>>},
                                          t \in {<<2, 6>>, <<6, 2>>, <<3, 4>>, <<4, 3>>, <<12, 1>>, <<1, 12>>, <<1, 1>>, <<4, 4>>, <<16, 1>>}}
  \cup UNION {{Case("reduce", A, None, <<1>> \o Iota(k)) : k \in 0..7} : A \in {Small(s[1], s[2], 4) : s \in Shapes(4)}}

Deltas == {0, 1, -1, ApproxUnits, -ApproxUnits, ApproxUnits + 1, -ApproxUnits - 1, 3000000, -3000000}
Odd == {NaN, PInf, NInf, NZ}
Poke(A, i, j, x) == SetElem(A, i, j, x)
C11(deep) == UNION {UNION {{Case(op, A, A, None), Case(op, Poke(A, R(A) - 1, i, NaN), Poke(A, R(A) - 1, i, NaN), None), Case(op, Poke(A, 0, i, PInf), Poke(A, 0, i, PInf), None)} :
                 op \in {"eq", "ne", "approx_eq"}, i \in {0, C(A) - 1}} : A \in {Small(s[1], s[2], 0) : s \in Shapes(4) \cup MidShapes \cup BigShapes}}
  \cup UNION {{Case(op, A, Poke(A, i, j, At(A, i, j) + d), None) :
                 op \in {"eq", "ne", "approx_eq"}, i \in 0..(R(A) - 1), j \in 0..(C(A) - 1), d \in Deltas} : A \in {Small(s[1], s[2], 0) : s \in Shapes(Dim)}}
  \cup UNION {{Case(op, Poke(A, i, j, x), Poke(A, i, j, y), None) :
                 op \in {"eq", "ne", "approx_eq"}, i \in 0..(R(A) - 1), j \in 0..(C(A) - 1), x \in Odd \cup {0}, y \in Odd \cup {0}} : A \in {Small(s[1], s[2], 0) : s \in Shapes(2)}}
  \cup UNION {{Case(op, A, Poke(A, i, j, x), None) :
                 op \in {"eq", "ne", "approx_eq"}, i \in 0..(R(A) - 1), j \in 0..(C(A) - 1), x \in {NaN, PInf}} : A \in {Small(s[1], s[2], 0) : s \in Shapes(4)}}
  \cup {Case(op, Const(s[1], s[2], 1), Const(t[1], t[2], 1), None) : op \in {"eq", "ne", "approx_eq"}, s \in Shapes(4) \cup {<<1, 12>>, <<2, 6>>}, t \in Shapes(4) \cup {<<1, 12>>, <<2, 6>>}}
  \cup {Case(op, Generic(s[1], s[2]), None, None) : op \in {"is_square", "is_not_square", "is_symmetric", "is_non_symmetric"}, s \in Shapes(5) \cup BigShapes}
  \cup UNION {LET A == MkMat(k, k, LAMBDA i, j : 10 * (i + j) + i * j) IN
              {Case(op, Poke(A, i, j, At(A, i, j) + d), None, None) :
                 op \in {"is_symmetric", "is_non_symmetric"}, i \in 0..(k - 1), j \in 0..(k - 1), d \in Deltas} : k \in 1..(Dim + 1)}
  \cup UNION {LET A == MkMat(k, k, LAMBDA i, j : 10 * (i + j) + i * j) IN
              {Case(op, Poke(A, i, j, x), None, None) :
                 op \in {"is_symmetric", "is_non_symmetric"}, i \in 0..(k - 1), j \in 0..(k - 1), x \in {NaN, PInf}} : k \in 2..3}
  \cup UNION {LET A == MkMat(k, k, LAMBDA i, j : 10 * (i + j) + i * j) IN
              {Case("is_symmetric", Poke(A, i, j, At(A, i, j) + ApproxUnits + 1), None, None) :
                 i \in {0, 1, k - 1}, j \in {0, 1, k - 2, k - 1}} : k \in {9, 17, 33}}
  \cup {LET A == Small(s[1], s[2], 0) IN Case("approx_eq", A, Poke(A, R(A) - 1, C(A) - 1, At(A, R(A) - 1, C(A) - 1) + d), None) : s \in BigShapes, d \in {0, ApproxUnits + 1}}
  \cup {Case("scalar_approx_eq", None, None, <<x, y>>) : x \in {0, 5, -7, 2000000} \cup Odd, y \in {x1 + d : x1 \in {0, 5, -7, 2000000}, d \in Deltas} \cup Odd}
  \cup {Case("scalar_approx_eq_eps", None, None, <<x, y, e>>) : x \in {0, 3, -3, NaN, PInf}, y \in -8..8, e \in {0, 1, 3, 6, 11}}

C12(deep) == {Case("trace", A, None, None) : A \in {Small(s[1], s[2], k) : s \in Shapes(6) \cup MidShapes \cup BigShapes, k \in 0..2} \cup Gs(Shapes(6) \cup MidShapes \cup BigShapes)}

Cases == CASE Prop = "C01" -> C01(Deep)
           [] Prop = "C02" -> C02(Deep)
           [] Prop = "C03" -> C03(Deep)
           [] Prop = "C04" -> C04(Deep)
           [] Prop = "C05" -> C05(Deep)
           [] Prop = "C06" -> C06(Deep)
           [] Prop = "C07" -> C07(Deep)
           [] Prop = "C08" -> C08(Deep)
           [] Prop = "C09" -> C09(Deep)
           [] Prop = "C11" -> C11(Deep)
           [] Prop = "C12" -> C12(Deep)

SeqOfCases == TLCEval(SetToSeq(Cases))
Expected(c) == Sem(c.op, c.a, c.b, c.n)

VARIABLES pc, res      \* the case being executed, and its outcome
GInit == pc \in 1..Len(SeqOfCases) /\ res = [k |-> "pending"]
GNext == /\ res.k = "pending"
         /\ res' = Expected(SeqOfCases[pc])
         /\ UNCHANGED pc
GSpec == GInit /\ [][GNext]_<<pc, res>>

(* Every outcome is one of the specified kinds, matrices are well formed.  *)
Outcome == /\ res.k \in {"pending", "mat", "self", "val", "rej", "open"}
           /\ res.k \in {"mat", "self"} => IsMat(res.m)
           /\ res.k = "self" => SeqOfCases[pc].op \in InPlace
(* Rejection depends on shapes and arguments only, never on elements.      *)

Export == ndJsonSerialize(IOEnv.VP_OUT,
            [i \in 1..Len(SeqOfCases) |-> [op |-> SeqOfCases[i].op, a |-> SeqOfCases[i].a, b |-> SeqOfCases[i].b,
                                           n |-> SeqOfCases[i].n, x |-> Expected(SeqOfCases[i])]])
ASSUME Export
=============================================================================
