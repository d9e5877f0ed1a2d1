------------------------------ MODULE GenLarge ------------------------------
(***************************************************************************)
(* Test generation from MatrixOps for matrices too large to enumerate: the *)
(* operands are described by a formula, and the outcome the specification  *)
(* requires is looked at in the rows and columns where an implementation   *)
(* that works in blocks, in narrow integers or by another method for large *)
(* matrices would differ.  (With VP_LAZY set, Mat evaluates an element of  *)
(* a matrix only when it is asked for.)                                    *)
(***************************************************************************)
EXTENDS MatrixOps, Json, SequencesExt

Prop == IOEnv.VP_PROP
Deep == IOEnv.VP_TIER = "thorough"

(* ---- operands by formula: [g, r, c, p] with p a list of <<i, j, v>> that differ ---- *)
Elem(g, c, i, j) == CASE g = 0 -> 1 + i * c + j
                      [] g = 1 -> 200001 + i * c + j
                      [] g = 2 -> 10 * (i + j) + ((i * j) % 1000)                                    \* symmetric
                      [] OTHER -> (((i * 7 + j * 3 + i * j + g * 5) * (g + 3)) % 7) - 3              \* -3..3
                                  + (IF g = 9 /\ (((i * 7 + j * 3 + i * j + g * 5) * (g + 3)) % 7) = 3 THEN 2 ELSE 0)   \* without zeros
Op(g, r, c) == [g |-> g, r |-> r, c |-> c, p |-> <<>>]
Poked(o, i, j, v) == [o EXCEPT !.p = <<i, j, v>>]
Matrix(o) == IF o.r = 0 THEN <<>>
             ELSE MkMat(o.r, o.c, LAMBDA i, j : IF o.p # <<>> /\ o.p[1] = i /\ o.p[2] = j THEN o.p[3] ELSE Elem(o.g, o.c, i, j))
NoOp == Op(0, 0, 0)
Case(op, a, b, n) == [op |-> op, a |-> a, b |-> b, n |-> n]
EP(o, i, j) == Elem(o.g, o.c, i, j)

(* ---- where to look ---- *)
Marks == {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 66, 67, 79, 80, 95, 96, 97, 99, 100, 101, 127, 128, 129, 130, 159, 160,
          191, 192, 193, 199, 200, 223, 224, 255, 256, 257, 258, 299, 300, 319, 320, 383, 384, 499, 500, 511, 512, 513, 639, 640, 767, 768, 999, 1000, 1001,
          1023, 1024, 1025, 2047, 2048, 4095, 4096, 8191, 8192, 9999, 10000, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537}
Look(k) == {x \in Marks \cup {k - 1, k - 2, k - 3, k - 4, k - 5, k - 8, k - 9, k \div 2, k \div 3, (k * 7) \div 11} : 0 <= x /\ x < k}
Few(k) == {x \in {0, 1, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 65535, 65536, k - 2, k - 1} : 0 <= x /\ x < k}
Pts(M) == LET P == SetToSeq(Look(R(M)) \X Look(C(M))) IN [k \in 1..Len(P) |-> <<P[k][1], P[k][2], At(M, P[k][1], P[k][2])>>]
Seen(x) == IF x.k \in {"mat", "self"} THEN [k |-> "pts", s |-> B2I(x.k = "self"), r |-> R(x.m), c |-> C(x.m), p |-> Pts(x.m)] ELSE x

Square == {<<130, 130>>, <<257, 257>>}
Oblong == {<<100, 103>>, <<130, 5>>, <<5, 130>>, <<129, 64>>, <<64, 129>>, <<300, 230>>, <<1025, 3>>, <<3, 1025>>, <<72, 40>>}
Vectors == {<<1, 300>>, <<300, 1>>, <<1, 70000>>, <<70000, 1>>, <<1, 4097>>, <<4097, 1>>}
Shapes == Square \cup Oblong \cup Vectors
Small == {s \in Shapes : s[1] * s[2] <= 17000}
Tall == {s \in Shapes : s[1] <= 1025 /\ s[2] <= 1025}
Iota(k) == [i \in 1..k |-> i]
O(g, s) == Op(g, s[1], s[2])

C01(z) == {Case(op, NoOp, NoOp, <<s[1], s[2]>>) : op \in {"id", "zero"}, s \in Shapes}
  \cup {Case(op, NoOp, NoOp, <<k>>) : op \in {"zero_vector", "one_vector"}, k \in {257, 1025, 4097, 70000}}
  \cup {Case(op, NoOp, NoOp, Iota(k)) : op \in {"vector", "row_vector"}, k \in {257, 1025, 70000}}
  \cup {Case("diag", NoOp, NoOp, Iota(k)) : k \in {130, 257}}
  \cup {Case("block_diag", NoOp, NoOp, <<s[1], s[2]>> \o Iota(Min(s[1], s[2]) + e)) : s \in Tall, e \in {0, 1}}
  \cup {Case("new", NoOp, NoOp, <<s[1], s[2]>> \o Iota(s[1] * s[2] + e)) : s \in {<<130, 5>>, <<5, 130>>, <<130, 130>>, <<1025, 3>>}, e \in {-1, 0, 1}}
  \cup {Case("new", NoOp, NoOp, <<257, 257>> \o Iota(66049))}
  \cup {Case(op, O(0, s), NoOp, <<>>) : op \in {"rows", "cols", "clone"}, s \in Shapes}
  \cup {Case("random", NoOp, NoOp, <<s[1], s[2]>>) : s \in Shapes}

Out(k) == {k, k + 1, 65536 + k, -1, -1031, -1032, -1062, -1063, -2032, -2063}     \* the negative ones stand for 2^64-1, 2^31, 2^32, .., 2^32+1, 2^63+1
C02(z) == UNION {{Case(op, O(0, s), NoOp, <<i, j>>) : op \in Reads, i \in Few(s[1]), j \in Few(s[2])} : s \in Shapes}
  \cup UNION {{Case(op, O(0, s), NoOp, <<i, j, 999999>>) : op \in Writes, i \in Few(s[1]), j \in Few(s[2])} : s \in Small}
  \cup UNION {{Case(op, O(0, s), NoOp, <<i, j, 999999>>) : op \in Reads \cup Writes, i \in Out(s[1]), j \in {0, s[2] - 1}}
              \cup {Case(op, O(0, s), NoOp, <<i, j, 999999>>) : op \in Reads \cup Writes, i \in {0, s[1] - 1}, j \in Out(s[2])}
              : s \in {<<1, 1>>, <<2, 2>>, <<1, 4>>, <<4, 1>>, <<3, 8>>, <<4, 16>>, <<5, 3>>, <<130, 5>>}}

C03(z) == {Case(op, O(0, s), NoOp, <<>>) : op \in {"t", "mt"}, s \in Shapes \cup (IF Deep THEN (90..110) \X (30..40) ELSE {})}

C04(z) == UNION {{Case("sub_matrix", O(0, s), NoOp, <<i, j, k, l>>) : i \in {0, 1, s[1] - 1, s[1] \div 3}, k \in {s[1], s[1] + 1, s[1] - 1, s[1] \div 2},
                                                                   j \in {0, 1, s[2] - 1, s[2] \div 3}, l \in {s[2], s[2] + 1, s[2] - 1, s[2] \div 2}} : s \in Small}
  \cup UNION {{Case("sub_matrix", O(0, s), NoOp, <<i, j, s[1], s[2]>>) : i \in {0, s[1] - 1, s[1] \div 3}, j \in {0, s[2] - 1, s[2] \div 3}} : s \in Shapes}
  \cup UNION {{Case("sub_matrix", O(0, s), NoOp, <<0, 0, e, s[2]>>), Case("sub_matrix", O(0, s), NoOp, <<0, 0, s[1], e>>)} : s \in {<<130, 5>>, <<4, 16>>}, e \in {-1, -1032, -1063, -2032, -2063}}
  \cup UNION {{Case("minor", O(0, s), NoOp, <<i, j>>) : i \in {0, 1, 64, 128, s[1] - 1, s[1]}, j \in {0, 1, 63, 128, s[2] - 1, s[2]}} : s \in Small \ Vectors}
  \cup UNION {{Case("minor", O(0, s), NoOp, <<i, j>>) : i \in {0, s[1] - 1}, j \in {0, s[2] - 1}} : s \in Shapes}
  \cup UNION {{Case("get_column", O(0, s), NoOp, <<j>>) : j \in Few(s[2]) \cup {2, 65, 66, 67, s[2], s[2] + 1, -1032, -1063}} : s \in Shapes}

C05(z) == {Case(op, O(0, s), O(1, t), <<>>) : op \in {"cr", "bitor", "cb"}, s \in Tall, t \in {u \in Tall : u[1] * u[2] <= 17000}}
  \cup {Case(op, O(0, s), O(1, s), <<>>) : op \in {"cr", "bitor", "cb"}, s \in Shapes}
  \cup {Case("cr", O(0, <<70000, 1>>), O(1, <<69999, 1>>), <<>>), Case("cb", O(0, <<1, 70000>>), O(1, <<1, 69999>>), <<>>)}

Rev(k) == [i \in 1..k |-> k - i]
Cyc(k) == [i \in 1..k |-> i % k]
Dup(k) == [i \in 1..(k + 7) |-> (i * 3) % k]
Off(k) == [i \in 1..k |-> IF i = k THEN k ELSE i - 1]
One(k) == <<k - 1>>
Even(k) == [i \in 1..k |-> i % 2]
Final(k) == [i \in 1..k |-> IF i = k THEN 1 ELSE 0]
All(k) == [i \in 1..k |-> 1]
Late(k) == [i \in 1..k |-> IF i > 100 \/ i % 7 = 3 THEN 1 ELSE 0]
C06(z) == UNION {{Case("permute_rows", O(0, s), NoOp, q) : q \in {Rev(s[1]), Cyc(s[1]), Dup(s[1]), Off(s[1]), One(s[1])}} : s \in Tall}
  \cup UNION {{Case("permute_columns", O(0, s), NoOp, q) : q \in {Rev(s[2]), Cyc(s[2]), Dup(s[2]), Off(s[2]), One(s[2])}} : s \in Tall}
  \cup UNION {{Case(op, O(0, s), NoOp, q) : op \in {"select_rows", "filter_rows"}, q \in {Even(s[1]), Final(s[1]), All(s[1]), Late(s[1])}} : s \in {s1 \in Tall : s1[1] * s1[2] <= 17000}}
  \cup UNION {{Case(op, O(0, s), NoOp, q) : op \in {"select_columns", "filter_columns"}, q \in {Even(s[2]), Final(s[2]), All(s[2]), Late(s[2])}} : s \in {s1 \in Tall : s1[1] * s1[2] <= 17000}}
  \cup UNION {{Case("select_rows", O(0, s), NoOp, All(s[1] + e)), Case("select_columns", O(0, s), NoOp, All(s[2] + e))} : s \in Tall, e \in {1, -1}}
  \cup {Case("permute_columns", O(0, <<1, 70000>>), NoOp, <<69999, 0, 65536, 32768>>), Case("permute_rows", O(0, <<70000, 1>>), NoOp, <<69999, 0, 65536, 32768>>)}
  \cup {Case("permute_columns", O(0, <<1, 8>>), NoOp, <<3, e, 0>>) : e \in Out(8)} \cup {Case("permute_rows", O(0, <<8, 2>>), NoOp, <<3, e, 0>>) : e \in Out(8)}

Ew2 == Adds \cup Subs \cup {"elem_mul", "madd", "msub", "melem_mul"}
C07(z) == {Case(op, O(3, s), O(4, s), <<>>) : op \in Ew2, s \in Shapes}
  \cup {Case(op, O(0, s), O(1, s), <<>>) : op \in Ew2 \ {"elem_mul", "melem_mul"}, s \in {<<130, 130>>, <<5, 130>>}}
  \cup {Case(op, O(9, s), O(9, s), <<>>) : op \in {"elem_div", "melem_div"}, s \in Shapes}
  \cup {Case(op, O(5, s), NoOp, <<>>) : op \in {"neg_r", "neg_v", "mneg"}, s \in Shapes}
  \cup {Case(op, O(5, s), NoOp, <<-3>>) : op \in {"scale", "mscale"}, s \in Shapes}
  \cup {Case(op, O(6, s), NoOp, <<f>>) : op \in {"map", "mmap"}, f \in {0, 1, 4}, s \in Shapes}
  \cup {Case("reduce", O(6, s), NoOp, <<f>> \o [i \in 1..s[2] |-> i - 2]) : f \in 1..3, s \in Tall \ {<<257, 257>>, <<300, 230>>}}

Triples == {<<1, 1000, 1>>, <<3, 257, 3>>, <<130, 5, 130>>, <<65, 65, 65>>, <<128, 128, 4>>, <<4, 128, 129>>, <<257, 3, 257>>, <<1, 130, 70>>, <<70, 130, 1>>,
            <<100, 1, 103>>, <<1, 5000, 1>>, <<33, 100, 37>>, <<5, 31, 300>>, <<300, 31, 5>>, <<2, 127, 2>>, <<2, 99, 3>>}
C08(z) == {Case(op, Op(3, t[1], t[2]), Op(4, t[2], t[3]), <<>>) : op \in {"mul_rr", "mul_vv", "mmul"}, t \in Triples}
  \cup {Case(op, Op(3, t[1], t[2]), Op(4, t[2] + e, t[3]), <<>>) : op \in {"mul_rr", "mmul"}, t \in {<<130, 5, 130>>, <<3, 257, 3>>}, e \in {1, -1}}

C09(z) == {Case(op, O(9, s), O(9, t), <<>>) : op \in Ew2 \cup Muls \cup {"mmul", "elem_div", "melem_div", "cr", "cb", "bitor"},
           s \in {<<130, 5>>, <<5, 130>>, <<650, 1>>, <<10, 65>>}, t \in {<<130, 5>>, <<5, 130>>, <<650, 1>>, <<10, 65>>}}
  \cup UNION {{Case(op, O(9, <<s[1] + 1, s[2]>>), O(9, s), <<>>), Case(op, O(9, s), O(9, <<s[1], s[2] + 1>>), <<>>)} :
              op \in {"add_rr", "sub_rr", "madd", "msub", "elem_mul", "melem_mul", "elem_div", "melem_div"}, s \in {<<257, 257>>, <<255, 2>>, <<1, 65536>>}}

Poke(s) == {<<i, j>> \in Few(s[1]) \X Few(s[2]) : (i + j) % 2 = 0 \/ Deep} \cup {<<s[1] - 1, s[2] - 1>>}
C11(z) == UNION {{Case(op, O(0, s), Poked(O(0, s), q[1], q[2], EP(O(0, s), q[1], q[2]) + 2 * ApproxUnits), <<>>) : op \in {"eq", "ne", "approx_eq"}, q \in Poke(s)}
              : s \in {<<130, 130>>, <<3, 1025>>, <<1025, 3>>, <<1, 4097>>}}
  \cup {Case(op, O(0, s), O(0, s), <<>>) : op \in {"eq", "ne", "approx_eq"}, s \in Small}
  \cup {Case(op, O(2, <<130, 130>>), NoOp, <<>>) : op \in {"is_symmetric", "is_non_symmetric", "is_square", "is_not_square"}}
  \cup UNION {{Case(op, Poked(O(2, s), q[1], q[2], EP(O(2, s), q[1], q[2]) + 2 * ApproxUnits), NoOp, <<>>) : op \in {"is_symmetric", "is_non_symmetric"}, q \in Poke(s)}
              : s \in {<<130, 130>>, <<100, 100>>}}
  \cup {Case(op, O(0, s), NoOp, <<>>) : op \in {"is_square", "is_not_square"}, s \in Shapes}

C12(z) == {Case("trace", O(g, s), NoOp, <<>>) : g \in {0, 5}, s \in Tall}

(* ---- every size up to a bound: an implementation that works in blocks of any size has a remainder of every length ---- *)
Sweep == "VP_SWEEP" \in DOMAIN IOEnv
K == 1..(IF Deep THEN 400 ELSE 140)
K2 == {k \in K : k > 1}
Slim(W) == UNION {{<<k, w>>, <<w, k>>} : k \in K, w \in W}
Mid(k) == {0, 1, k \div 3, k \div 2, k - 3, k - 2, k - 1} \cap 0..(k - 1)
S01(z) == UNION {{Case(op, NoOp, NoOp, s) : op \in {"id", "zero"}} : s \in Slim({1, 2, 7})} \cup {Case(op, NoOp, NoOp, <<k>>) : op \in {"zero_vector", "one_vector"}, k \in K}
  \cup {Case(op, NoOp, NoOp, Iota(k)) : op \in {"vector", "row_vector"}, k \in K} \cup {Case("diag", NoOp, NoOp, Iota(k)) : k \in {h \in K : h % 3 = 1}}
  \cup UNION {{Case("new", NoOp, NoOp, s \o Iota(s[1] * s[2] + e)) : e \in {-1, 0, 1}} : s \in Slim({2, 3})}
  \cup {Case("block_diag", NoOp, NoOp, s \o Iota(Min(s[1], s[2]) + e)) : s \in Slim({1, 5}), e \in {-1, 0, 1}}
Spots(s) == {<<0, 0>>, <<s[1] - 1, s[2] - 1>>, <<s[1] \div 2, s[2] - 1>>, <<s[1] - 1, s[2] \div 2>>}
Beyond(s) == {<<s[1], 0>>, <<0, s[2]>>}
S02(z) == UNION {{Case(op, O(0, s), NoOp, q) : op \in Reads, q \in Spots(s) \cup Beyond(s)} \cup {Case(op, O(0, s), NoOp, q \o <<999999>>) : op \in Writes, q \in Spots(s) \cup Beyond(s)} : s \in Slim({3})}
S03(z) == {Case(op, O(0, s), NoOp, <<>>) : op \in {"t", "mt"}, s \in Slim({1, 2, 3, 4, 5, 7, 8, 12}) \cup {<<k, k>> : k \in K} \cup UNION {{<<k, k + 1>>, <<k + 1, k>>, <<k, 2 * k>>} : k \in {h \in K : h <= 60}}}
S04(z) == UNION {{Case("sub_matrix", O(0, s), NoOp, <<b[1], b[2], s[1] - b[3], s[2] - b[4]>>) : b \in {<<0, 0, 0, 0>>, <<1, 1, 0, 0>>, <<0, 0, 1, 1>>, <<0, 1, 0, 0>>, <<0, 0, 0, 1>>, <<1, 0, 1, 0>>, <<0, 0, -1, 0>>, <<0, 0, 0, -1>>}}
                 \cup {Case("minor", O(0, s), NoOp, q) : q \in Spots(s)} \cup {Case("get_column", O(0, s), NoOp, <<j>>) : j \in {0, s[2] \div 2, s[2] - 1, s[2]}} : s \in Slim({3, 6})}
S05(z) == UNION {{Case("cr", O(0, <<k, 2>>), O(1, <<k, 3>>), <<>>), Case("cr", O(0, <<3, k>>), O(1, <<3, 2>>), <<>>), Case("bitor", O(0, <<3, 2>>), O(1, <<3, k>>), <<>>), Case("bitor", O(0, <<k, 3>>), O(1, <<k, 1>>), <<>>),
               Case("cr", O(0, <<k, 2>>), O(1, <<k + 1, 2>>), <<>>), Case("cb", O(0, <<3, k>>), O(1, <<3, k + 1>>), <<>>),
               Case("cb", O(0, <<2, k>>), O(1, <<3, k>>), <<>>), Case("cb", O(0, <<k, 3>>), O(1, <<2, 3>>), <<>>), Case("cb", O(0, <<2, 3>>), O(1, <<k, 3>>), <<>>)} : k \in K}
\* flags: all but one, only one, the first or last so many, in runs
FlagsOf(k) == {[i \in 1..k |-> B2I(i - 1 # p)] : p \in Mid(k)} \cup {[i \in 1..k |-> B2I(i - 1 = p)] : p \in Mid(k)} \cup {[i \in 1..k |-> B2I(i - 1 <= p)] : p \in Mid(k)}
           \cup {[i \in 1..k |-> B2I(i - 1 >= p)] : p \in Mid(k)} \cup {[i \in 1..k |-> ((i - 1) \div r) % 2] : r \in {1, 3, 8}} \cup {[i \in 1..k |-> B2I(i - 1 < p \/ i = k)] : p \in Mid(k)}
ListsOf(k) == {Rev(k), Cyc(k), Dup(k), Off(k)} \cup {[i \in 1..k |-> (i * 5 + k) % k], [i \in 1..k |-> IF i = k - 1 THEN 0 ELSE i - 1]}
S06(z) == UNION {UNION {{Case(op, O(0, <<k, 2>>), NoOp, f) : op \in {"select_rows", "filter_rows"}} \cup {Case(op, O(0, <<2, k>>), NoOp, f) : op \in {"select_columns", "filter_columns"}} : f \in FlagsOf(k)} : k \in {h \in K : h % (IF Deep THEN 1 ELSE 3) = 0}}
  \cup UNION {UNION {{Case("permute_rows", O(0, <<k, 2>>), NoOp, f), Case("permute_columns", O(0, <<2, k>>), NoOp, f)} : f \in ListsOf(k)} : k \in K}
  \cup UNION {{Case("filter_rows_calls", O(0, <<k, 2>>), NoOp, <<>>), Case("filter_columns_calls", O(0, <<2, k>>), NoOp, <<>>)} : k \in K}
  \cup UNION {{Case("select_rows", O(0, <<k, 2>>), NoOp, All(k + e)), Case("select_columns", O(0, <<2, k>>), NoOp, All(k + e))} : e \in {-1, 1}, k \in K}
S07(z) == {Case(op, O(3, s), O(4, s), <<>>) : op \in {"add_rr", "sub_rr", "elem_mul", "madd", "msub", "melem_mul"}, s \in Slim({3})}
  \cup {Case(op, O(9, s), O(9, s), <<>>) : op \in {"elem_div", "melem_div"}, s \in Slim({1, 3})}
  \cup {Case(op, O(5, s), NoOp, <<>>) : op \in {"neg_r", "mneg"}, s \in Slim({1, 3})}
  \cup {Case(op, O(5, s), NoOp, <<-3>>) : op \in {"scale", "mscale"}, s \in Slim({1, 3})}
  \cup {Case(op, O(6, s), NoOp, <<4>>) : op \in {"map", "mmap"}, s \in Slim({1, 3})}
  \cup {Case("reduce", O(6, s), NoOp, <<f>> \o [i \in 1..s[2] |-> i - 2]) : f \in 1..3, s \in Slim({1, 2, 3})}
S08(z) == UNION {UNION {{Case(op, Op(3, t[1], t[2]), Op(4, t[2], t[3]), <<>>) : op \in {"mul_rr", "mmul"}} : t \in {<<1, k, 1>>, <<2, k, 3>>, <<k, 3, 2>>, <<3, 2, k>>, <<k, 1, k>>, <<4, k, k>>}} : k \in K}
S09(z) == UNION {UNION {{Case(op, O(9, s), O(9, <<s[1] + 1, s[2]>>), <<>>), Case(op, O(9, s), O(9, <<s[1], s[2] + 1>>), <<>>), Case(op, O(9, <<s[1] + 1, s[2]>>), O(9, s), <<>>), Case(op, O(9, <<s[1], s[2] + 1>>), O(9, s), <<>>)} :
              op \in {"add_rr", "sub_rr", "madd", "msub", "elem_mul", "melem_mul", "elem_div", "melem_div", "mul_rr", "mmul"}} : s \in {u \in Slim({2}) : Max(u[1], u[2]) % (IF Deep THEN 1 ELSE 4) = 0}}
S11(z) == UNION {UNION {{Case(op, O(0, s), Poked(O(0, s), i, j, EP(O(0, s), i, j) + 2 * ApproxUnits), <<>>) : op \in {"eq", "approx_eq"}} : i \in {0, s[1] - 1}, j \in {s[2] \div 2, s[2] - 1}} : s \in Slim({1, 3})}
  \cup UNION {{Case("is_symmetric", Poked(O(2, <<k, k>>), q[1], q[2], EP(O(2, <<k, k>>), q[1], q[2]) + 2 * ApproxUnits), NoOp, <<>>) :
                       q \in UNION {{<<k - 1, j>>, <<j, k - 1>>, <<k \div 2, j>>} : j \in (Mid(k) \cup {0, k - 4, k - 5, k - 7, k - 9}) \cap 0..(k - 1)}} : k \in {h \in K : h <= 100}}
  \cup {Case(op, O(0, s), NoOp, <<>>) : op \in {"is_square", "is_symmetric"}, s \in Slim({1, 3}) \cup {<<k, k>> : k \in {h \in K : h <= 60}}}
S12(z) == {Case("trace", O(g, s), NoOp, <<>>) : g \in {0, 5}, s \in Slim({1, 2, 3, 9}) \cup {<<k, k>> : k \in K}}

Cases == IF Sweep
         THEN CASE Prop = "C01" -> S01(0) [] Prop = "C02" -> S02(0) [] Prop = "C03" -> S03(0) [] Prop = "C04" -> S04(0) [] Prop = "C05" -> S05(0) [] Prop = "C06" -> S06(0)
                [] Prop = "C07" -> S07(0) [] Prop = "C08" -> S08(0) [] Prop = "C09" -> S09(0) [] Prop = "C11" -> S11(0) [] Prop = "C12" -> S12(0)
         ELSE CASE Prop = "C01" -> C01(0) [] Prop = "C02" -> C02(0) [] Prop = "C03" -> C03(0) [] Prop = "C04" -> C04(0) [] Prop = "C05" -> C05(0) [] Prop = "C06" -> C06(0)
                [] Prop = "C07" -> C07(0) [] Prop = "C08" -> C08(0) [] Prop = "C09" -> C09(0) [] Prop = "C11" -> C11(0) [] Prop = "C12" -> C12(0)
SeqOfCases == TLCEval(SetToSeq(Cases))
Expected(c) == LET A == Matrix(c.a)  B == Matrix(c.b) IN Seen(Sem(c.op, A, B, c.n))

VARIABLES pc, res      \* the case being executed, and its outcome
GInit == pc \in 1..Len(SeqOfCases) /\ res = [k |-> "pending"]
\* Every case is evaluated once, by whatever worker of TLC gets it, and written to a file of its own.
GNext == /\ res.k = "pending"
         /\ UNCHANGED pc
         /\ res' = Expected(SeqOfCases[pc])
         /\ LET c == SeqOfCases[pc] IN ndJsonSerialize(IOEnv.VP_OUT \o "." \o ToString(pc), <<[op |-> c.op, a |-> c.a, b |-> c.b, n |-> c.n, x |-> res']>>)
GSpec == GInit /\ [][GNext]_<<pc, res>>
Outcome == res.k \in {"pending", "pts", "val", "rej", "open"}
ASSUME Lazy
=============================================================================
