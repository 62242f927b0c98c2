-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* What the definitions of Tensors have to satisfy whatever they look like: *)
(* row-major order as an odometer and as a Horner scheme, the algebra of    *)
(* broadcasting, of matrix products and of views.  One state for each       *)
(* triple of shapes; the laws are invariants.                               *)
(***************************************************************************)
EXTENDS Tensors
CONSTANTS MaxDim, MaxRank

VARIABLES sa, sb, sc
vars == <<sa, sb, sc>>
Shapes == UNION {[1..r -> 0..MaxDim] : r \in 0..MaxRank}
Init == sa \in Shapes /\ sb \in Shapes /\ sc \in Shapes
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Val(sh, from) == Mk(sh, [p \in 1..Prod(sh) |-> ((p * 5 + from) % 11) - 5])
A == Val(sa, 1)
B == Val(sb, 4)
C == Val(sc, 8)

(* indices ------------------------------------------------------------------*)
RECURSIVE Horner(_, _, _)
Horner(idx, sh, d) == IF d = 0 THEN 0 ELSE Horner(idx, sh, d - 1) * sh[d] + idx[d]

\* the next index, by carrying; <<>> after the last
RECURSIVE Carry(_, _, _)
Carry(idx, sh, d) ==
    IF d = 0 THEN <<-1>>
    ELSE IF idx[d] + 1 < sh[d] THEN [idx EXCEPT ![d] = @ + 1]
    ELSE Carry([idx EXCEPT ![d] = 0], sh, d - 1)

Odometer ==
    LET all == AllIndices(sa) IN
    /\ Len(all) = Prod(sa)
    /\ all # <<>> => \A d \in 1..Len(sa) : all[1][d] = 0
    /\ \A p \in 1..Len(all) :
         /\ Len(all[p]) = Len(sa) /\ \A d \in 1..Len(sa) : all[p][d] \in 0..(sa[d] - 1)
         /\ Carry(all[p], sa, Len(sa)) = IF p < Len(all) THEN all[p + 1] ELSE <<-1>>
         /\ Horner(all[p], sa, Len(sa)) = p - 1
         /\ InRange(all[p], sa) /\ Position(all[p], sa) = p
         \* surplus leading coordinates do not count
         /\ Position(<<7>> \o all[p], sa) = p /\ InRange(<<7>> \o all[p], sa)

(* broadcasting -------------------------------------------------------------*)
\* element p of the broadcast shape, dimension by dimension from the last
Paired(p, big, sh) ==
    LET i == Unflat(p - 1, big)
        j == [d \in 1..Len(sh) |-> IF sh[d] = 1 THEN 0 ELSE i[d + Len(big) - Len(sh)]]
    IN 1 + Horner(j, sh, Len(sh))
Broadcast ==
    /\ Broadcastable(sa, sb) = Broadcastable(sb, sa)
    /\ Broadcastable(sa, sa) /\ BShape(sa, sa) = sa
    /\ Broadcastable(sa, <<>>) /\ BShape(sa, <<>>) = sa
    /\ Broadcastable(sa, sb) =>
         LET big == BShape(sa, sb) s == TAdd(A, B) IN
         /\ big = BShape(sb, sa) /\ BShape(big, sa) = big /\ BShape(big, sb) = big
         /\ WellFormed(s) /\ s.sh = big /\ TAdd(B, A) = s
         /\ \A p \in 1..Prod(big) : s.val[p] = A.val[Paired(p, big, sa)] + B.val[Paired(p, big, sb)]
         /\ TAdd(TNeg(A), TNeg(B)) = TNeg(s)
         /\ (Broadcastable(big, sc) /\ Broadcastable(sb, sc) /\ Broadcastable(sa, BShape(sb, sc))) =>
               TAdd(s, C) = TAdd(A, TAdd(B, C))

(* products -----------------------------------------------------------------*)
Identity(n) == Mk(<<n, n>>, [p \in 1..(n * n) |-> IF (p - 1) \div n = (p - 1) % n THEN 1 ELSE 0])
Trans(a) == Mk(<<a.sh[2], a.sh[1]>>, TransVal(a.val, a.sh[1], a.sh[2]))
Products ==
    /\ BmmOk(A, B) =>
         LET c == TBmm(A, B) k == sb[1] n == sb[2] IN
         /\ WellFormed(c) /\ Len(c.sh) = Len(sa)
         /\ \A r \in 1..Rows(A), j \in 1..n :
              c.val[(r - 1) * n + j] = TotalE([i \in 1..k |-> A.val[(r - 1) * k + i] * B.val[(i - 1) * n + j]])
         /\ TBmm(A, Identity(k)) = A
         /\ Len(sa) = 2 => Trans(c) = TBmm(Trans(B), Trans(A))
         /\ BmmOk(B, C) => TBmm(c, C) = TBmm(A, TBmm(B, C))
         /\ sb = sc => TBmm(A, TAdd(B, C)) = TAdd(c, TBmm(A, C))
    /\ sa = sb =>
         /\ TSum(TAdd(A, B)).val[1] = TSum(A).val[1] + TSum(B).val[1]
         /\ TSum(TEMul(A, B)).val = TDot(A, B).val
         /\ TMul(A, B) = TMul(B, A)
    /\ TMul(A, Mk(<<>>, <<-1>>)) = TNeg(A) /\ TMul(Mk(<<>>, <<2>>), A) = TAdd(A, A)

(* views --------------------------------------------------------------------*)
Full(sh) == [d \in 1..Len(sh) |-> <<0, sh[d]>>]
\* sb and sc, where they have the rank of sa, are used as widths: a slice of a slice
Cut(sh, w) == [d \in 1..Len(sh) |-> LET k == Min2(w[d], sh[d]) IN <<sh[d] - k, sh[d]>>]
Views ==
    /\ RangesOk(sa, Full(sa)) /\ TSlice(A, Full(sa)) = A
    /\ Len(sb) = Len(sa) =>
         LET r == Cut(sa, sb) t == TSlice(A, r) IN
         /\ RangesOk(sa, r) /\ WellFormed(t)
         /\ \A p \in 1..Len(t.val) :
              LET i == Unflat(p - 1, t.sh)
              IN t.val[p] = A.val[1 + Horner([d \in 1..Len(sa) |-> i[d] + r[d][1]], sa, Len(sa))]
         /\ Len(sc) = Len(sa) =>
              LET q == Cut(t.sh, sc)
              IN TSlice(t, q) = TSlice(A, [d \in 1..Len(sa) |-> <<r[d][1] + q[d][1], r[d][1] + q[d][2]>>])
    /\ TEq(A, A) /\ (TEq(A, B) <=> A = B)
=============================================================================
