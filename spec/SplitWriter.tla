----------------------------- MODULE SplitWriter -----------------------------
(***************************************************************************)
(* Where the products that make up the gradients of a matrix product go.    *)
(* The result is one array, cut into blocks of Width elements; each product *)
(* is sent to the reader of its block with its index in the whole array.    *)
(* For operands [m, n] and [n, p] and r rows of incoming gradient, all the  *)
(* sizes up to Max: every product ends up in the block that has a place for *)
(* it, and every element gets exactly the products of its definition.  The  *)
(* messages come in any order, so each says which term of the sum it is:    *)
(* sorted by that, the sum is taken in one order whatever the schedule.     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANT Max
Width == 32

\* row-major position, as global_index has it
Pos(a, b, cols) == a * cols + b
Blocks(len) == (len + Width - 1) \div Width
BlockLen(len, s) == IF (s + 1) * Width <= len THEN Width ELSE len - s * Width
Block(i) == i \div Width
Local(i) == i - Block(i) * Width

VARIABLES m, n, p, r
vars == <<m, n, p, r>>
Init == m \in 1..Max /\ n \in 1..Max /\ p \in 1..Max /\ r \in 1..2
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Tasks == (0..(m - 1)) \X (0..(n - 1)) \X (0..(p - 1)) \X (0..(r - 1))
\* what the task of (i, k, j) sends for row q: index, element of the incoming gradient, element of the other operand
LeftMsg(t) == [at |-> Pos(t[4], Pos(t[1], t[2], n), m * n), inc |-> <<t[4], Pos(t[1], t[3], p)>>, elem |-> <<t[2], t[3]>>, term |-> t[3]]
RightMsg(t) == [at |-> Pos(t[4], Pos(t[2], t[3], p), n * p), inc |-> <<t[4], Pos(t[1], t[3], p)>>, elem |-> <<t[1], t[2]>>, term |-> t[1]]

Fits(i, len) == i < len /\ Block(i) < Blocks(len) /\ Local(i) < BlockLen(len, Block(i)) /\ Block(i) * Width + Local(i) = i
OneSlot == \A t \in Tasks : Fits(LeftMsg(t).at, r * m * n) /\ Fits(RightMsg(t).at, r * n * p)
EverySlot ==
    \A len \in {r * m * n, r * n * p} :
        LET S[k \in 0..Blocks(len)] == IF k = 0 THEN 0 ELSE S[k - 1] + BlockLen(len, k - 1)
        IN S[Blocks(len)] = len /\ \A s \in 0..(Blocks(len) - 1) : BlockLen(len, s) > 0
\* dL/dA[i,k] = sum over j of dL/dC[i,j] * B[k,j];  dL/dB[k,j] = sum over i of dL/dC[i,j] * A[i,k]
SumsRight ==
    LET left == {LeftMsg(t) : t \in Tasks} right == {RightMsg(t) : t \in Tasks} IN
    /\ Cardinality(left) = Cardinality(Tasks) /\ Cardinality(right) = Cardinality(Tasks)
    /\ \A q \in 0..(r - 1) : \A i \in 0..(m - 1) : \A k \in 0..(n - 1) :
         {[inc |-> x.inc, elem |-> x.elem] : x \in {y \in left : y.at = q * m * n + i * n + k}}
           = {[inc |-> <<q, i * p + j>>, elem |-> <<k, j>>] : j \in 0..(p - 1)}
    /\ \A q \in 0..(r - 1) : \A k \in 0..(n - 1) : \A j \in 0..(p - 1) :
         {[inc |-> x.inc, elem |-> x.elem] : x \in {y \in right : y.at = q * n * p + k * p + j}}
           = {[inc |-> <<q, i * p + j>>, elem |-> <<i, k>>] : i \in 0..(m - 1)}
\* sorting the messages of one element by term leaves no choice
OneOrder ==
    LET left == {LeftMsg(t) : t \in Tasks} right == {RightMsg(t) : t \in Tasks} IN
    /\ \A x, y \in left : x.at = y.at /\ x.term = y.term => x = y
    /\ \A x, y \in right : x.at = y.at /\ x.term = y.term => x = y
=============================================================================
