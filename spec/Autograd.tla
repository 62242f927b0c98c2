------------------------------ MODULE Autograd ------------------------------
(***************************************************************************)
(* Differentiation over a recorded computation.  A graph is a sequence of   *)
(* nodes [sh, val, op, args, ...]; args are indices of earlier nodes.       *)
(*                                                                         *)
(* Pull (reverse mode) is what backward must compute.  Push (forward mode,  *)
(* directional derivatives) is an independent definition of derivative;     *)
(* model checking compares the two (GradIsDerivative in the MC modules).    *)
(***************************************************************************)
EXTENDS Tensors

Differentiable == {"add", "neg", "adds", "negs", "sum", "dot", "bmm", "relu", "abs", "tanh"}

ReluD(x) == IF x < 0 THEN 0 ELSE 1
AbsD(x) == IF x < 0 THEN -1 ELSE 1
TanhD(x) == IF x = 0 THEN 1 ELSE 0        \* 1 - tanh(x)^2 on the exact points

\* the element-wise product of a cotangent with a pointwise derivative
ByPoint(D(_), xs, ct) == TLCEval([p \in 1..Len(xs) |-> Times(ct[p], D(xs[p]))])

\* sum a cotangent of shape big over the dimensions along which sh was stretched
Unbroadcast(ct, big, sh) ==
    IF Prod(big) = Prod(sh) THEN ct
    ELSE IF Prod(sh) = 1 THEN <<TotalE(ct)>>
    ELSE LET m == BMap(big, sh)
             all == [p \in 1..Len(ct) |-> p]
         IN TLCEval([q \in 1..Prod(sh) |->
               FoldLeft(LAMBDA acc, p : IF m[p] = q THEN Plus(acc, ct[p]) ELSE acc, Zero, all)])

\* what node nd passes to its k-th argument when its own cotangent is ct
Pull(N, nd, k, ct) ==
    LET x == N[nd.args[k]] IN
    CASE nd.op = "add"  -> Unbroadcast(ct, nd.sh, x.sh)
      [] nd.op = "adds" -> LET u == Unbroadcast(ct, nd.sh, x.sh)
                           IN IF k = 1 THEN u ELSE TLCEval([p \in 1..Len(u) |-> Times(u[p], Lift(nd.times))])
      [] nd.op = "negs" -> IF nd.times % 2 = 0 THEN ct ELSE TLCEval([p \in 1..Len(ct) |-> NegOf(ct[p])])
      [] nd.op = "neg"  -> TLCEval([p \in 1..Len(ct) |-> NegOf(ct[p])])
      [] nd.op = "sum"  -> Const(Len(x.val), ct[1])
      [] nd.op = "dot"  -> LET y == N[nd.args[3 - k]]
                           IN TLCEval([p \in 1..Len(x.val) |-> Times(ct[1], y.val[p])])
      [] nd.op = "relu" -> ByPoint(LAMBDA v : ReluD(v), x.val, ct)
      [] nd.op = "abs"  -> ByPoint(LAMBDA v : AbsD(v), x.val, ct)
      [] nd.op = "tanh" -> ByPoint(LAMBDA v : TanhD(v), x.val, ct)
      [] nd.op = "bmm"  ->
           LET a == N[nd.args[1]]
               b == N[nd.args[2]]
               m == Rows(a)
               kk == b.sh[1]
               n == b.sh[2]
           IN IF k = 1 THEN MatVal(ct, TransVal(b.val, kk, n), m, n, kk)
              ELSE MatVal(TransVal(a.val, m, kk), ct, kk, m, n)

None == <<NoElem>>     \* no derivative: root was not computed from this node
AddSeq(a, b) == IF a = None THEN b ELSE TLCEval([p \in 1..Len(a) |-> Plus(a[p], b[p])])

\* Total derivative of the (one-element) node root with respect to every node
\* it was computed from: a sequence over 1..root, None where there is none.
RECURSIVE PullArgs(_, _, _, _)
PullArgs(N, G, i, k) ==
    IF k > Len(N[i].args) THEN G
    ELSE LET j == N[i].args[k]
         IN PullArgs(N, TLCEval([G EXCEPT ![j] = AddSeq(G[j], Pull(N, N[i], k, G[i]))]), i, k + 1)
RECURSIVE PullFrom(_, _, _)
PullFrom(N, G, i) ==
    IF i = 0 THEN G
    ELSE IF G[i] = None THEN PullFrom(N, G, i - 1)
    ELSE PullFrom(N, PullArgs(N, G, i, 1), i - 1)
Derivatives(N, root) ==
    PullFrom(N, TLCEval([i \in 1..root |-> IF i = root THEN <<One>> ELSE None]), root)

(******************* forward mode: the definition to check against *********)
\* Tangent of node i when element e of node leaf moves at unit speed and
\* nothing else does.  t is the sequence of tangents of the earlier nodes.
PushOp(N, nd, t) ==
    LET x == N[nd.args[1]]
        dx == t[nd.args[1]]
    IN
    CASE nd.op = "add" -> TAdd(Mk(x.sh, dx), Mk(N[nd.args[2]].sh, t[nd.args[2]])).val
      [] nd.op = "neg" -> [p \in 1..Len(dx) |-> NegOf(dx[p])]
      [] nd.op = "adds" -> TAdd(Mk(x.sh, dx), TScale(Mk(N[nd.args[2]].sh, t[nd.args[2]]), nd.times)).val
      [] nd.op = "negs" -> [p \in 1..Len(dx) |-> IF nd.times % 2 = 0 THEN dx[p] ELSE NegOf(dx[p])]
      [] nd.op = "sum" -> <<TotalE(dx)>>
      [] nd.op = "dot" -> <<DotVal(dx, N[nd.args[2]].val) + DotVal(x.val, t[nd.args[2]])>>
      [] nd.op = "relu" -> [p \in 1..Len(dx) |-> IF x.val[p] < 0 THEN 0 ELSE dx[p]]
      [] nd.op = "abs" -> [p \in 1..Len(dx) |-> IF x.val[p] < 0 THEN 0 - dx[p] ELSE dx[p]]
      [] nd.op = "tanh" -> [p \in 1..Len(dx) |-> IF x.val[p] = 0 THEN dx[p] ELSE 0]
      [] nd.op = "bmm" ->
           LET b == N[nd.args[2]]
               m == Rows(x)
               d1 == MatVal(dx, b.val, m, b.sh[1], b.sh[2])
               d2 == MatVal(x.val, t[nd.args[2]], m, b.sh[1], b.sh[2])
           IN [p \in 1..Len(d1) |-> d1[p] + d2[p]]
RECURSIVE PushTo(_, _, _, _, _)
PushTo(N, t, root, leaf, e) ==
    LET i == Len(t) + 1 IN
    IF i > root THEN t[root][1]
    ELSE LET ti == IF i = leaf THEN [p \in 1..Len(N[i].val) |-> IF p = e THEN 1 ELSE 0]
                   ELSE IF N[i].op \in Differentiable THEN PushOp(N, N[i], t)
                   ELSE Const(Len(N[i].val), 0)
         IN PushTo(N, Append(t, TLCEval(ti)), root, leaf, e)
DirectionalDerivative(N, root, leaf, e) == PushTo(N, <<>>, root, leaf, e)
=============================================================================
