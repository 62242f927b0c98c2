------------------------------- MODULE Tensors -------------------------------
(***************************************************************************)
(* The mathematics of rust_light: what each tensor operation means.        *)
(* A tensor is [sh |-> shape, val |-> elements in row-major order]; shapes  *)
(* and index vectors are 0-based sequences of naturals, as in the code.    *)
(* Elements are integers (all drivers keep values exactly representable);  *)
(* four large integers stand for values that are not: see Special.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

BAD  == 2147483647     \* not an integer, or too large: no operation yields it
NAN  == 2147483646
PINF == 2147483645
NINF == -2147483645
Special == {BAD, NAN, PINF, NINF}

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Prod(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
Total(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Mk(sh, val) == [sh |-> sh, val |-> val]
Count(t) == Prod(t.sh)
WellFormed(t) == Len(t.val) = Prod(t.sh)
Const(n, v) == [p \in 1..n |-> v]

(******************************** indexing *********************************)
Stride(sh) == [d \in 1..Len(sh) |-> Prod(SubSeq(sh, d + 1, Len(sh)))]

\* the index vector of the p-th element (p counts from 0)
Unflat(p, sh) ==
    LET st == TLCEval(Stride(sh)) IN [d \in 1..Len(sh) |-> (p \div st[d]) % sh[d]]

\* An index vector is aligned with the shape at the last dimension.
\* Coordinate of dimension d of sh under idx; 0 when the dimension is stretched
Coord(idx, sh, d) ==
    LET j == d + Len(idx) - Len(sh) IN IF sh[d] = 1 \/ j < 1 THEN 0 ELSE idx[j]

InRange(idx, sh) ==
    \A d \in 1..Len(sh) :
        IF d + Len(idx) - Len(sh) < 1 THEN sh[d] = 1
        ELSE sh[d] = 1 \/ idx[d + Len(idx) - Len(sh)] < sh[d]

Position(idx, sh) ==     \* 1-based position of the addressed element
    LET st == TLCEval(Stride(sh))
    IN 1 + Total([d \in 1..Len(sh) |-> Coord(idx, sh, d) * st[d]])

AllIndices(sh) == TLCEval([p \in 1..Prod(sh) |-> TLCEval(Unflat(p - 1, sh))])

(****************************** broadcasting *******************************)
Dim(sh, fromEnd) == IF fromEnd <= Len(sh) THEN sh[Len(sh) + 1 - fromEnd] ELSE 1

Broadcastable(a, b) ==
    \A e \in 1..Min2(Len(a), Len(b)) :
        Dim(a, e) = Dim(b, e) \/ Dim(a, e) = 1 \/ Dim(b, e) = 1

BShape(a, b) ==
    LET r == Max2(Len(a), Len(b))
    IN [d \in 1..r |-> LET e == r + 1 - d IN
                       IF Dim(a, e) = 1 THEN Dim(b, e) ELSE Dim(a, e)]

\* for every element of the broadcast shape, the element of sh it stands for
BMap(big, sh) ==
    IF big = sh \/ Prod(big) = Prod(sh) THEN [p \in 1..Prod(big) |-> p]
    ELSE IF Prod(sh) = 1 THEN [p \in 1..Prod(big) |-> 1]
    ELSE TLCEval([p \in 1..Prod(big) |-> Position(Unflat(p - 1, big), sh)])

BZip(Op(_, _), a, b) ==
    LET sh == TLCEval(BShape(a.sh, b.sh))
        ma == BMap(sh, a.sh)
        mb == BMap(sh, b.sh)
    IN Mk(sh, TLCEval([p \in 1..Prod(sh) |-> Op(a.val[ma[p]], b.val[mb[p]])]))

Map(Op(_), a) == Mk(a.sh, TLCEval([p \in 1..Len(a.val) |-> Op(a.val[p])]))

\* arithmetic on elements, for other kinds of elements to replace (see Smooth)
Zero == 0
One == 1
Plus(x, y) == x + y
Times(x, y) == x * y
NoElem == BAD          \* stands for no element at all
Lift(x) == x           \* the element that a number in a call means
LiftAll(v) == TLCEval([p \in 1..Len(v) |-> Lift(v[p])])
TotalE(s) == FoldLeft(LAMBDA x, y : Plus(x, y), Zero, s)
TAdd(a, b) == BZip(LAMBDA x, y : Plus(x, y), a, b)
ReluOf(x) == IF x = NAN THEN NAN ELSE IF x < 0 THEN 0 ELSE x
AbsOf(x) == IF x \in {NAN, BAD} THEN x ELSE IF x = NINF THEN PINF ELSE IF x < 0 THEN 0 - x ELSE x
NegOf(x) == IF x \in {NAN, BAD} THEN x ELSE 0 - x
TNeg(a) == Map(LAMBDA x : NegOf(x), a)

\* tanh is exact in floating point at 0 and, by saturation, from 24 on
TanhExact(x) == x = 0 \/ x >= 24 \/ x <= -24
TanhOf(x) == IF x = NAN THEN NAN ELSE IF x = 0 THEN 0 ELSE IF x > 0 THEN 1 ELSE -1

(******************************** products *********************************)
TScale(a, c) == Map(LAMBDA x : Times(x, c), a)
SameShape(a, b) == a.sh = b.sh
TEMul(a, b) == Mk(a.sh, TLCEval([p \in 1..Len(a.val) |-> Times(a.val[p], b.val[p])]))
MulOk(a, b) == a.sh = <<>> \/ b.sh = <<>> \/ a.sh = b.sh
TMul(a, b) ==
    IF a.sh = <<>> THEN TScale(b, a.val[1])
    ELSE IF b.sh = <<>> THEN TScale(a, b.val[1])
    ELSE TEMul(a, b)

BmmOk(a, b) ==
    /\ Len(a.sh) \in {2, 3}
    /\ Len(b.sh) = 2
    /\ a.sh[Len(a.sh)] = b.sh[1]

\* a batch is all of its rows, one matrix below the other
Rows(a) == Prod(SubSeq(a.sh, 1, Len(a.sh) - 1))
MatVal(av, bv, m, k, n) ==
    LET ks == [i \in 1..k |-> i]
    IN TLCEval([q \in 1..(m * n) |->
         LET r == ((q - 1) \div n) * k
             c == ((q - 1) % n) + 1
         IN FoldLeft(LAMBDA acc, i : Plus(acc, Times(av[r + i], bv[(i - 1) * n + c])), Zero, ks)])
TBmm(a, b) ==
    Mk(SubSeq(a.sh, 1, Len(a.sh) - 1) \o <<b.sh[2]>>,
       MatVal(a.val, b.val, Rows(a), b.sh[1], b.sh[2]))

TransVal(v, m, n) ==     \* the n x m transpose of an m x n matrix
    TLCEval([q \in 1..(m * n) |-> v[((q - 1) % m) * n + ((q - 1) \div m) + 1]])

TSum(a) == Mk(<<>>, <<TotalE(a.val)>>)
DotVal(av, bv) ==
    FoldLeft(LAMBDA acc, i : Plus(acc, Times(av[i], bv[i])), Zero, [i \in 1..Len(av) |-> i])
TDot(a, b) == Mk(<<1>>, <<DotVal(a.val, b.val)>>)

(********************************** views **********************************)
RangesOk(sh, rs) ==
    /\ Len(rs) = Len(sh)
    /\ \A d \in 1..Len(rs) : rs[d][1] <= rs[d][2] /\ rs[d][2] <= sh[d]

TSlice(t, rs) ==
    LET sh == TLCEval([d \in 1..Len(rs) |-> rs[d][2] - rs[d][1]])
        st == TLCEval(Stride(t.sh))
        Src(p) == LET u == TLCEval(Unflat(p - 1, sh))
                  IN 1 + Total([d \in 1..Len(sh) |-> (u[d] + rs[d][1]) * st[d]])
    IN Mk(sh, TLCEval([p \in 1..Prod(sh) |-> t.val[Src(p)]]))

(****************************** nested data ********************************)
\* The shape of nested sequences of depth d, or <<-1>> when ragged or empty
RECURSIVE NestShape(_, _)
NestShape(x, d) ==
    IF d = 0 THEN <<>>
    ELSE IF Len(x) = 0 THEN <<-1>>
    ELSE LET subs == {NestShape(x[i], d - 1) : i \in 1..Len(x)}
         IN IF Cardinality(subs) > 1 \/ <<-1>> \in subs THEN <<-1>>
            ELSE <<Len(x)>> \o (CHOOSE s \in subs : TRUE)
RECURSIVE NestFlat(_, _)
NestFlat(x, d) ==
    IF d = 0 THEN <<x>>
    ELSE FoldLeft(LAMBDA acc, y : acc \o NestFlat(y, d - 1), <<>>, x)

EqElem(x, y) == x # NAN /\ y # NAN /\ x = y
TEq(a, b) ==
    /\ a.sh = b.sh
    /\ \A p \in 1..Len(a.val) : EqElem(a.val[p], b.val[p])
=============================================================================
