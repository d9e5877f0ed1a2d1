--------------------------- MODULE MatrixMachine ----------------------------
(***************************************************************************)
(* The library as a sequential object: a bank of matrices, one operation   *)
(* per step.  Every public matrix operation is one action; a rejected call *)
(* is a step too, and changes nothing.                                     *)
(***************************************************************************)
EXTENDS MatrixOps

CONSTANTS Regs,        \* register names: 1..k
          Vals,        \* element values used by writes and initial contents
          MaxDim,      \* shapes explored exhaustively
          Families,    \* which groups of operations the exploration includes
          MaxAbs       \* bound on element magnitude (state constraint)

VARIABLES bank,        \* [Regs -> matrix]
          last         \* last outcome: the kind of Sem's result

vars == <<bank, last>>

TypeOK == /\ \A x \in Regs : IsMat(bank[x])
          /\ last \in {"init", "mat", "self", "val", "rej"}

Init == bank = [x \in Regs |-> <<<<CHOOSE v \in Vals : TRUE>>>>] /\ last = "init"

FiniteMat(M) == \A i \in 1..R(M), j \in 1..C(M) : IsFinite(M[i][j])

(* The machine has integer elements, so the two IEEE zeros coincide.       *)
(* One call: receiver x, second operand y, destination z, arguments n. *)
Call(op, x, y, z, n) ==
  LET s == Sem(op, bank[x], bank[y], n) IN
  /\ s.k # "open"
  /\ s.k \in {"mat", "self"} => FiniteMat(s.m)       \* no division by zero
  /\ last' = s.k
  /\ bank' = CASE s.k = "mat"  -> [bank EXCEPT ![z] = CanonMat(s.m)]
               [] s.k = "self" -> [bank EXCEPT ![x] = CanonMat(s.m)]
               [] OTHER        -> bank

Idx == 0..MaxDim                                   \* one past the largest index
SmallSeqs(S, k) == UNION {[1..l -> S] : l \in 1..k}

New(z) == \E r \in 1..MaxDim, c \in 1..MaxDim : \E d \in [1..(r * c) -> Vals] :
            \/ Call("new", z, z, z, <<r, c>> \o d)
            \/ Call("new", z, z, z, <<r, c>> \o Tail(d))
Build(z) == \/ \E r \in 1..2, c \in 1..2, op \in {"id", "zero"} : Call(op, z, z, z, <<r, c>>)
            \/ \E d \in SmallSeqs(Vals, 2), op \in {"vector", "row_vector", "diag"} : Call(op, z, z, z, d)
            \/ \E d \in SmallSeqs(Vals, 2), r \in 1..2, c \in 1..2 : Call("block_diag", z, z, z, <<r, c>> \o d)
            \/ \E r \in 1..2, op \in {"zero_vector", "one_vector"} : Call(op, z, z, z, <<r>>)
            \/ \E x \in Regs : Call("clone", x, x, z, <<>>)
Read(x)  == \E op \in Reads, i \in Idx, j \in Idx : Call(op, x, x, x, <<i, j>>)
Write(x) == \E op \in Writes, i \in Idx, j \in Idx, v \in Vals : Call(op, x, x, x, <<i, j, v>>)
Look(x)  == \E op \in {"rows", "cols", "get_data", "is_square", "is_not_square", "is_symmetric", "trace"} : Call(op, x, x, x, <<>>)
Transp(x, z) == Call("t", x, x, z, <<>>) \/ Call("mt", x, x, z, <<>>)
Cut(x, z) == \/ \E i \in Idx, j \in Idx : Call("minor", x, x, z, <<i, j>>)
             \/ \E i \in Idx, j \in Idx, k \in Idx, l \in Idx : Call("sub_matrix", x, x, z, <<i, j, k, l>>)
             \/ \E j \in Idx : Call("get_column", x, x, z, <<j>>)
Join(x, y, z) == \E op \in {"cr", "cb", "bitor"} : Call(op, x, y, z, <<>>)
Pick(x, z) == \/ \E s \in SmallSeqs(Idx, 2), op \in {"permute_rows", "permute_columns"} : Call(op, x, x, z, s)
              \/ \E s \in SmallSeqs({0, 1}, 2), op \in {"select_rows", "select_columns"} : Call(op, x, x, z, s)
              \/ \E s \in [1..R(bank[x]) -> {0, 1}] : Call("filter_rows", x, x, z, s)
              \/ \E s \in [1..C(bank[x]) -> {0, 1}] : Call("filter_columns", x, x, z, s)
Unary(x, z) == \/ \E op \in {"neg_r", "mneg"} : Call(op, x, x, z, <<>>)
               \/ \E op \in {"scale", "mscale"}, f \in Vals : Call(op, x, x, z, <<f>>)
               \/ \E op \in {"map", "mmap"}, f \in 0..4 : Call(op, x, x, z, <<f>>)
               \/ \E f \in 0..3, s \in SmallSeqs(Vals, 2) : Call("reduce", x, x, z, <<f>> \o s)
Arith(x, y, z) == \E op \in {"add_rr", "sub_rr", "elem_mul", "elem_div", "madd", "msub", "melem_mul", "melem_div"} :
                    Call(op, x, y, z, <<>>)
Prod(x, y, z) == \E op \in {"mul_rr", "mmul"} : Call(op, x, y, z, <<>>)
Compare(x, y) == \E op \in {"eq", "approx_eq"} : Call(op, x, y, x, <<>>)

On(f) == f \in Families
\* One destination is enough: results of copying operations go to the last register.
Dest == CHOOSE z \in Regs : \A x \in Regs : x <= z
Next == \/ \E z \in Regs : New(z)
        \/ \E x \in Regs :
             \/ On("build") /\ Build(x)
             \/ On("access") /\ (Read(x) \/ Write(x) \/ Look(x))
             \/ On("transpose") /\ Transp(x, Dest)
             \/ On("cut") /\ Cut(x, Dest)
             \/ On("pick") /\ Pick(x, Dest)
             \/ On("unary") /\ Unary(x, Dest)
             \/ \E y \in Regs :
                  \/ On("join") /\ Join(x, y, Dest)
                  \/ On("arith") /\ Arith(x, y, Dest)
                  \/ On("product") /\ Prod(x, y, Dest)
                  \/ On("compare") /\ Compare(x, y)

Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ *)
(* Bounds for exhaustive exploration.                                   *)
BankView == bank
Bounded == \A x \in Regs : /\ R(bank[x]) <= MaxDim /\ C(bank[x]) <= MaxDim
                           /\ \A i \in 1..R(bank[x]), j \in 1..C(bank[x]) : AbsI(bank[x][i][j]) <= MaxAbs

(* ------------------------------------------------------------------ *)
(* Properties.                                                          *)
\* A rejected call or a query changes nothing.
Atomic == [][last' \in {"rej", "val"} => bank' = bank]_vars
\* One call changes at most one matrix.
Frame == [][Cardinality({x \in Regs : bank'[x] # bank[x]}) <= 1]_vars

MV(s) == s.m
T(M) == MV(Sem("t", M, M, <<>>))
Mul(X, Y) == Sem("mul_rr", X, Y, <<>>)
Add(X, Y) == Sem("add_rr", X, Y, <<>>)

\* In-place and copying forms agree.
InPlaceAgrees ==
  \A x, y \in Regs : LET A == bank[x]  B == bank[y] IN
    /\ Sem("mt", A, A, <<>>).m = T(A)
    /\ Sem("mneg", A, A, <<>>).m = Sem("neg_r", A, A, <<>>).m
    /\ \A p \in {<<"madd", "add_rr">>, <<"msub", "sub_rr">>, <<"melem_mul", "elem_mul">>, <<"mmul", "mul_rr">>} :
         LET s == Sem(p[1], A, B, <<>>)  q == Sem(p[2], A, B, <<>>) IN
         (s.k = "rej" /\ q.k = "rej") \/ (s.k = "self" /\ q.k = "mat" /\ s.m = q.m)

\* Algebraic laws, by the group of operations they are about.
TransposeLaws == \A x \in Regs : LET A == bank[x] IN
    /\ T(T(A)) = A
    /\ R(T(A)) = C(A) /\ C(T(A)) = R(A)
    /\ Trace(A) = Trace(T(A))
CutLaws == \A x \in Regs : LET A == bank[x] IN
    /\ SubMatrix(A, 0, 0, R(A), C(A)) = A
    /\ FromData(R(A), C(A), Data(A)) = A
    /\ \A j \in 0..(C(A)-1) : Column(A, j) = SubMatrix(A, 0, j, R(A), j + 1)
    /\ (R(A) > 1 /\ C(A) > 1 =>
          \A i \in 0..(R(A)-1), j \in 0..(C(A)-1) : Minor(T(A), j, i) = T(Minor(A, i, j)))
PickLaws == \A x \in Regs : LET A == bank[x] IN
    /\ Rows(A, [i \in 1..R(A) |-> i - 1]) = A
    /\ \A p \in [1..R(A) -> 0..(R(A)-1)] : /\ T(Rows(A, p)) = Cols(T(A), p)
                                           /\ \A q \in [1..R(A) -> 0..(R(A)-1)] :
                                                Rows(Rows(A, p), q) = Rows(A, [i \in 1..R(A) |-> p[q[i] + 1]])
JoinLaws == \A x, y \in Regs : LET A == bank[x]  B == bank[y] IN
    /\ (R(A) = R(B) => /\ SubMatrix(Beside(A, B), 0, 0, R(A), C(A)) = A
                       /\ SubMatrix(Beside(A, B), 0, C(A), R(A), C(A) + C(B)) = B
                       /\ T(Beside(A, B)) = Above(T(A), T(B)))
    /\ (C(A) = C(B) => SubMatrix(Above(A, B), R(A), 0, R(A) + R(B), C(A)) = B)
ProductLaws == \A x, y \in Regs : LET A == bank[x]  B == bank[y] IN
    /\ Product(A, Identity(C(A), C(A))) = A /\ Product(Identity(R(A), R(A)), A) = A
    /\ (C(A) = R(B) => T(Product(A, B)) = Product(T(B), T(A)))
    /\ (C(A) = R(B) /\ R(A) = C(B) => Trace(Product(A, B)) = Trace(Product(B, A)))
    /\ (SameShape(A, B) => Product(T(Add(A, B).m), A) = Add(Product(T(A), A), Product(T(B), A)).m)
AddLaws == \A x, y \in Regs : LET A == bank[x]  B == bank[y] IN
    SameShape(A, B) => /\ Add(A, B).m = Add(B, A).m
                       /\ CanonMat(Sem("sub_rr", Add(A, B).m, B, <<>>).m) = A
                       /\ T(Add(A, B).m) = Add(T(A), T(B)).m
CompareLaws == \A x, y \in Regs : LET A == bank[x]  B == bank[y] IN
    /\ EqMat(A, B) <=> A = B
    /\ ApproxMat(A, B) = ApproxMat(B, A)
    /\ ApproxMat(A, A) /\ (EqMat(A, B) => ApproxMat(A, B))
    /\ Symmetric(A) <=> (R(A) = C(A) /\ ApproxMat(A, T(A)))
=============================================================================
