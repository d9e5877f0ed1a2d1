--------------------------- MODULE TransposeModel ---------------------------
(***************************************************************************)
(* Transposing in place by following the cycles of the permutation         *)
(* k -> rows * k mod (size - 1) with a set of visited positions, one move  *)
(* per step, for every shape up to a bound.  When it ends the storage holds*)
(* the transpose; every position is moved exactly once.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxRows, MaxCols
VARIABLES r, c, data, visited, start, idx, held
vars == <<r, c, data, visited, start, idx, held>>
Size == r * c
None == -1
Init == /\ r \in 1..MaxRows /\ c \in 1..MaxCols
        /\ data = [k \in 0..(r * c - 1) |-> k]
        /\ visited = {} /\ start = 1 /\ idx = None /\ held = None
Begin == /\ idx = None /\ start < Size - 1
         /\ IF start \in visited THEN start' = start + 1 /\ UNCHANGED <<idx, held>>
            ELSE idx' = start /\ held' = data[start] /\ UNCHANGED start
         /\ UNCHANGED <<r, c, data, visited>>
Move == /\ idx # None
        /\ LET to == (r * idx) % (Size - 1) IN
           /\ data' = [data EXCEPT ![to] = held]
           /\ IF to = start THEN idx' = None /\ held' = None /\ start' = start + 1 /\ UNCHANGED visited
              ELSE /\ idx' = to /\ held' = data[to] /\ visited' = visited \cup {to} /\ UNCHANGED start
        /\ UNCHANGED <<r, c>>
Spec == Init /\ [][Begin \/ Move]_vars /\ WF_vars(Begin \/ Move)
Done == idx = None /\ start >= Size - 1
\* Row-major element (i, j) of the result is element (j, i) of the argument.
Transposed == Done => \A i \in 0..(c - 1), j \in 0..(r - 1) : data[i * r + j] = j * c + i
\* Nothing is lost on the way: the values in the storage together with the one held are all of them.
Conserved == {data[k] : k \in 0..(Size - 1)} \cup (IF held = None THEN {} ELSE {held}) = 0..(Size - 1)
NeverTwice == idx # None /\ (r * idx) % (Size - 1) # start => (r * idx) % (Size - 1) \notin visited
Ends == <>Done
=============================================================================
