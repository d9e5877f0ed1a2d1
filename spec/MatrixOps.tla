----------------------------- MODULE MatrixOps ------------------------------
(***************************************************************************)
(* What each public operation on a matrix does, as a relation-free         *)
(* function of its arguments: Sem(op, A, B, n) where A is the receiver, B  *)
(* the second matrix operand (<<>> when there is none) and n a sequence of *)
(* integer arguments.  The result is one of                                *)
(*    [k |-> "mat",  m |-> M]   a new matrix M is returned                 *)
(*    [k |-> "self", m |-> M]   the receiver becomes M                     *)
(*    [k |-> "val",  v |-> s]   a plain value (sequence of integers)       *)
(*    [k |-> "rej"]             the call is rejected and changes nothing   *)
(*    [k |-> "open"]             the call is outside what is specified      *)
(***************************************************************************)
EXTENDS Mat, FiniteSets, TLC

MatR(m)  == [k |-> "mat", m |-> m]
SelfR(m) == [k |-> "self", m |-> m]
ValR(v)  == [k |-> "val", v |-> v]
Rej      == [k |-> "rej"]
Open     == [k |-> "open"]          \* outside the specified domain

B2I(b) == IF b THEN 1 ELSE 0
Tail2(n) == SubSeq(n, 3, Len(n))

(* Named scalar functions handed to map and reduce. *)
Fn(id, x) == CASE id = 0 -> IAdd(IMul(2, x), 1)
               [] id = 1 -> IMul(x, x)
               [] id = 2 -> 7
               [] id = 3 -> x
               [] OTHER  -> INeg(x)
Fold2(id, acc, x) == CASE id = 0 -> ISub(IMul(2, acc), x)
                       [] id = 1 -> IAdd(acc, x)
                       [] id = 2 -> x
                       [] OTHER  -> acc

(* 1e-6 in units of 2^-40: two elements k*2^-40 and l*2^-40 are           *)
(* approximately equal iff |k - l| <= 1099511.                             *)
ApproxUnits == 1099511
ApproxScalar(x, y) == IsFinite(x) /\ IsFinite(y) /\ AbsI(Num(x) - Num(y)) <= ApproxUnits
ApproxMat(A, B) == SameShape(A, B) /\ \A i \in 0..(R(A)-1), j \in 0..(C(A)-1) : ApproxScalar(At(A,i,j), At(B,i,j))
Symmetric(A) == R(A) = C(A) /\ \A i \in 0..(R(A)-1) : \A j \in 0..(i-1) : ApproxScalar(At(A,i,j), At(A,j,i))

InRange(s, hi) == \A i \in 1..Len(s) : s[i] >= 0 /\ s[i] < hi

(* The literals the driver writes with the m! macro, by number. *)
Literals == <<
  <<<<1>>>>, <<<<1, 2, 3>>>>, <<<<1>>, <<2>>, <<3>>>>, <<<<1, 2>>, <<3, 4>>>>, <<<<1, 2, 3>>, <<4, 5, 6>>>>,
  <<<<1, 2>>, <<3, 4>>, <<5, 6>>>>, <<<<11, 5>>, <<-3, 34>>>>,
  <<<<1, 2, 3, 4, 5>>, <<6, 7, 8, 9, 10>>, <<11, 12, 13, 14, 15>>, <<16, 17, 18, 19, 20>>>>,
  (* rows of different lengths *)
  <<<<1, 2, 3>>, <<4>>>>, <<<<1>>, <<2, 3, 4>>>>, <<<<1, 2>>, <<3, 4, 5>>, <<6>>>>, <<<<1, 2, 3>>, <<4, 5>>>>,
  <<<<1>>, <<2>>, <<3, 4>>>>, <<<<1, 2>>, <<3>>, <<4, 5>>, <<6, 7, 8>>>>, <<<<1, 2, 3, 4>>, <<5, 6>>, <<7, 8, 9>>>> >>

Reads   == {"get", "get_ref", "get_mref", "index"}
Writes  == {"set", "set_mref"}
Adds    == {"add_rr", "add_rv", "add_vr", "add_vv"}
Subs    == {"sub_rr", "sub_rv", "sub_vr", "sub_vv"}
Muls    == {"mul_rr", "mul_rv", "mul_vr", "mul_vv"}

Sem(op, A, B, n) ==
  CASE
  (* construction *)
     op = "new" -> IF n[1] > 0 /\ n[2] > 0 /\ n[1] * n[2] = Len(n) - 2
                   THEN MatR(FromData(n[1], n[2], Tail2(n))) ELSE Rej
  [] op = "vector" -> IF Len(n) > 0 THEN MatR(FromData(Len(n), 1, n)) ELSE Rej
  [] op = "row_vector" -> IF Len(n) > 0 THEN MatR(FromData(1, Len(n), n)) ELSE Rej
  [] op = "id" -> MatR(Identity(n[1], n[2]))
  [] op = "zero" -> MatR(Const(n[1], n[2], 0))
  [] op = "diag" -> IF Len(n) > 0 THEN MatR(BlockDiag(Len(n), Len(n), n)) ELSE Rej
  [] op = "block_diag" -> IF Len(n) - 2 = Min(n[1], n[2]) THEN MatR(BlockDiag(n[1], n[2], Tail2(n))) ELSE Rej
  [] op = "zero_vector" -> MatR(Const(n[1], 1, 0))
  [] op = "one_vector" -> MatR(Const(n[1], 1, 1))
  [] op = "literal" -> IF IsMat(Literals[n[1]]) THEN MatR(Literals[n[1]]) ELSE Rej
  [] op = "random" -> ValR(<<n[1], n[2], 1>>)     \* shape, and every element drawn anew, in [0,1) (n[3]: repetitions)
  [] op = "clone" -> MatR(A)
  (* shape and element access *)
  [] op = "rows" -> ValR(<<R(A)>>)
  [] op = "cols" -> ValR(<<C(A)>>)
  [] op = "get_data" -> ValR(Data(A))
  [] op = "is_square" -> ValR(<<B2I(R(A) = C(A))>>)
  [] op = "is_not_square" -> ValR(<<B2I(R(A) # C(A))>>)
  [] op \in Reads -> IF InMat(A, n[1], n[2]) THEN ValR(<<At(A, n[1], n[2])>>) ELSE Rej
  [] op \in Writes -> IF InMat(A, n[1], n[2]) THEN SelfR(SetElem(A, n[1], n[2], n[3])) ELSE Rej
  [] op = "set_data" -> IF n[1] >= 0 /\ n[1] < R(A) * C(A)
                        THEN SelfR(SetElem(A, n[1] \div C(A), n[1] % C(A), n[2])) ELSE Rej
  (* structure *)
  [] op = "t" -> MatR(Transpose(A))
  [] op = "mt" -> SelfR(Transpose(A))
  [] op = "minor" -> IF InMat(A, n[1], n[2]) /\ R(A) > 1 /\ C(A) > 1 THEN MatR(Minor(A, n[1], n[2])) ELSE Rej
  [] op = "sub_matrix" -> IF 0 <= n[1] /\ n[1] < n[3] /\ n[3] <= R(A) /\ 0 <= n[2] /\ n[2] < n[4] /\ n[4] <= C(A)
                          THEN MatR(SubMatrix(A, n[1], n[2], n[3], n[4])) ELSE Rej
  [] op = "get_column" -> IF n[1] >= 0 /\ n[1] < C(A) THEN MatR(Column(A, n[1])) ELSE Rej
  [] op \in {"cr", "bitor"} -> IF R(A) = R(B) THEN MatR(Beside(A, B)) ELSE Rej
  [] op = "cb" -> IF C(A) = C(B) THEN MatR(Above(A, B)) ELSE Rej
  [] op = "permute_rows" -> IF Len(n) = 0 THEN Open ELSE IF InRange(n, R(A)) THEN MatR(Rows(A, n)) ELSE Rej
  [] op = "permute_columns" -> IF Len(n) = 0 THEN Open ELSE IF InRange(n, C(A)) THEN MatR(Cols(A, n)) ELSE Rej
  [] op = "select_rows" -> IF Len(n) # R(A) THEN Rej
                           ELSE IF Len(Chosen(n)) = 0 THEN Open ELSE MatR(Rows(A, Chosen(n)))
  [] op = "select_columns" -> IF Len(n) # C(A) THEN Rej
                              ELSE IF Len(Chosen(n)) = 0 THEN Open ELSE MatR(Cols(A, Chosen(n)))
  (* the predicate given to filter_* looks its verdict up by index (and    *)
  (* rejects any other matrix than the receiver)                           *)
  [] op = "filter_rows" -> IF Len(Chosen(n)) = 0 THEN Open ELSE MatR(Rows(A, Chosen(n)))
  [] op = "filter_columns" -> IF Len(Chosen(n)) = 0 THEN Open ELSE MatR(Cols(A, Chosen(n)))
  (* the sequence of indices at which a predicate is consulted *)
  [] op = "filter_rows_calls" -> ValR([i \in 1..R(A) |-> i - 1])
  [] op = "filter_columns_calls" -> ValR([i \in 1..C(A) |-> i - 1])
  (* elementwise *)
  [] op \in {"neg_r", "neg_v"} -> MatR(Map1(A, INeg))
  [] op = "mneg" -> SelfR(Map1(A, INeg))
  [] op = "scale" -> MatR(Map1(A, LAMBDA x : IMul(n[1], x)))
  [] op = "mscale" -> SelfR(Map1(A, LAMBDA x : IMul(n[1], x)))
  [] op = "map" -> MatR(Map1(A, LAMBDA x : Fn(n[1], x)))
  [] op = "mmap" -> SelfR(Map1(A, LAMBDA x : Fn(n[1], x)))
  [] op = "reduce" -> IF Len(n) - 1 = C(A)
                      THEN MatR(ReduceCols(A, Tail(n), LAMBDA acc, x : Fold2(n[1], acc, x))) ELSE Rej
  [] op \in Adds -> IF SameShape(A, B) THEN MatR(Map2(A, B, IAdd)) ELSE Rej
  [] op \in Subs -> IF SameShape(A, B) THEN MatR(Map2(A, B, ISub)) ELSE Rej
  [] op = "elem_mul" -> IF SameShape(A, B) THEN MatR(Map2(A, B, IMul)) ELSE Rej
  [] op = "elem_div" -> IF ~SameShape(A, B) THEN Rej
                        ELSE IF \E i \in 0..(R(A)-1), j \in 0..(C(A)-1) : ~DivDefined(At(A,i,j), At(B,i,j)) THEN Open
                        ELSE MatR(Map2(A, B, IDiv))
  [] op = "madd" -> IF SameShape(A, B) THEN SelfR(Map2(A, B, IAdd)) ELSE Rej
  [] op = "msub" -> IF SameShape(A, B) THEN SelfR(Map2(A, B, ISub)) ELSE Rej
  [] op = "melem_mul" -> IF SameShape(A, B) THEN SelfR(Map2(A, B, IMul)) ELSE Rej
  [] op = "melem_div" -> IF ~SameShape(A, B) THEN Rej
                         ELSE IF \E i \in 0..(R(A)-1), j \in 0..(C(A)-1) : ~DivDefined(At(A,i,j), At(B,i,j)) THEN Open
                         ELSE SelfR(Map2(A, B, IDiv))
  (* product; only the numeric value of zero elements is specified *)
  [] op \in Muls -> IF C(A) = R(B) THEN MatR(CanonMat(Product(A, B))) ELSE Rej
  [] op = "mmul" -> IF C(A) = R(B) THEN SelfR(CanonMat(Product(A, B))) ELSE Rej
  (* comparison *)
  [] op = "eq" -> ValR(<<B2I(EqMat(A, B))>>)
  [] op = "ne" -> ValR(<<B2I(~EqMat(A, B))>>)
  [] op = "approx_eq" -> ValR(<<B2I(ApproxMat(A, B))>>)
  [] op = "is_symmetric" -> ValR(<<B2I(Symmetric(A))>>)
  [] op = "is_non_symmetric" -> ValR(<<B2I(~Symmetric(A))>>)
  [] op = "scalar_approx_eq" -> ValR(<<B2I(ApproxScalar(n[1], n[2]))>>)
  [] op = "scalar_approx_eq_eps" -> ValR(<<B2I(IsFinite(n[1]) /\ IsFinite(n[2]) /\ AbsI(Num(n[1]) - Num(n[2])) < n[3])>>)
  [] op = "trace" -> ValR(<<Canon(Trace(A))>>)

Constructors == {"new", "vector", "row_vector", "id", "zero", "diag", "block_diag", "zero_vector", "one_vector"}
InPlace == Writes \cup {"set_data", "mt", "mneg", "mscale", "mmap", "madd", "msub", "melem_mul", "melem_div", "mmul"}
Binary == Adds \cup Subs \cup Muls \cup {"elem_mul", "elem_div", "madd", "msub", "melem_mul", "melem_div", "mmul",
          "cr", "cb", "bitor", "eq", "ne", "approx_eq"}
\* Operations whose zero results are specified up to the sign of zero.
ZeroSignFree == Muls \cup {"mmul", "trace"}
=============================================================================
