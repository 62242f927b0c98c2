------------------------------ MODULE RustLight ------------------------------
(***************************************************************************)
(* The state of a program that uses rust_light, and what every call of its  *)
(* public interface does to it.                                            *)
(*                                                                         *)
(* State S = [nd |-> nodes, sl |-> slots].                                  *)
(*  A node is a tensor in memory: shape, elements, the operation that made  *)
(*  it and its operands (indices of earlier nodes), and its gradient (the   *)
(*  index of a node, 0 when there is none).  Nodes never change except for  *)
(*  the gradient.                                                          *)
(*  A slot is a variable of the program:                                    *)
(*   [k |-> "rc",   n |-> node]            a shared tensor (RcTensor)        *)
(*   [k |-> "raw",  n |-> node]            a plain tensor (RawTensor)        *)
(*   [k |-> "view", n |-> base, sh, val]   a view (TensorView)               *)
(*   [k |-> "lin",  ls |-> <<layer>>]      a Linear, layer = [w, b, act]      *)
(*   [k |-> "mlp",  ls |-> layers]         an Mlp                            *)
(*   [k |-> "gone"]                        moved into an Mlp                 *)
(*                                                                         *)
(* Exec(S, c) gives the next state and the reply of call c.  A call that    *)
(* the library refuses (it panics, or returns Err) replies "reject" ("err") *)
(* and leaves the state alone.                                             *)
(***************************************************************************)
EXTENDS Autograd

Empty == [nd |-> <<>>, sl |-> <<>>]

\* times: how often the operation was repeated (see "chain"), 1 for all others
NodeN(t, op, args, g, n) == [sh |-> t.sh, val |-> t.val, op |-> op, args |-> args, g |-> g, times |-> n]
Node(t, op, args, g) == NodeN(t, op, args, g, 1)
Leaf(t) == Node(t, "leaf", <<>>, 0)
TensorOf(nd) == Mk(nd.sh, nd.val)

(******************************** replies **********************************)
Rej(S) == [S |-> S, r |-> [st |-> "reject"]]
Err(S) == [S |-> S, r |-> [st |-> "err"]]
Done(S) == [S |-> S, r |-> [st |-> "ok"]]
Val(S, v) == [S |-> S, r |-> [st |-> "ok", v |-> v]]
Out(S, t) == [S |-> S, r |-> [st |-> "ok", sh |-> t.sh, val |-> t.val]]

AddNode(S, nd) == [S EXCEPT !.nd = Append(@, nd)]
AddSlot(S, sl) == [S EXCEPT !.sl = Append(@, sl)]
LastNode(S) == Len(S.nd)

\* new node nd in a new slot of kind k
Give(S, k, nd) ==
    LET S1 == AddNode(S, nd)
    IN Out(AddSlot(S1, [k |-> k, n |-> LastNode(S1)]), TensorOf(nd))
\* another handle to node n
Share(S, n) == Out(AddSlot(S, [k |-> "rc", n |-> n]), TensorOf(S.nd[n]))

Kind(S, a) == S.sl[a].k
TT(S, a) == IF S.sl[a].k = "view" THEN Mk(S.sl[a].sh, S.sl[a].val) ELSE TensorOf(S.nd[S.sl[a].n])

\* to_tensor: the node itself for a shared tensor; for a plain tensor a copy
\* with gradient and history; for a view a fresh tensor.  <<state, node>>
ToRc(S, a) ==
    IF Kind(S, a) = "rc" THEN <<S, S.sl[a].n>>
    ELSE LET S1 == AddNode(S, IF Kind(S, a) = "raw" THEN S.nd[S.sl[a].n] ELSE Leaf(TT(S, a)))
         IN <<S1, LastNode(S1)>>

(******************************* gradients *********************************)
\* add the elements g to the gradient of node n
Accumulate(S, n, g) ==
    LET old == S.nd[n].g
        sum == IF old = 0 THEN Mk(S.nd[n].sh, g)
               ELSE TAdd(TensorOf(S.nd[old]), Mk(S.nd[n].sh, g))
        S1 == AddNode(S, Leaf(sum))
    IN [S1 EXCEPT !.nd[n].g = LastNode(S1)]

RECURSIVE AccumulateAll(_, _, _)
AccumulateAll(S, D, i) ==
    IF i = 0 THEN S
    ELSE AccumulateAll(IF D[i] = None THEN S ELSE TLCEval(Accumulate(S, i, D[i])), D, i - 1)

BackwardOk(S, n) == Prod(S.nd[n].sh) = 1 /\ S.nd[n].op # "leaf"
Backward(S, n) == AccumulateAll(S, TLCEval(Derivatives(S.nd, n)), n - 1)

(*************************** recorded operations ***************************)
\* each returns <<ok, state, node>>
No(S) == <<FALSE, S, 0>>
Rec(S, nd) == LET S1 == AddNode(S, nd) IN <<TRUE, S1, LastNode(S1)>>

OpAdd(S, x, y) ==
    LET a == S.nd[x] b == S.nd[y]
    IN IF ~Broadcastable(a.sh, b.sh) THEN No(S)
       ELSE Rec(S, Node(TAdd(a, b), "add", <<x, y>>, 0))
OpNeg(S, x) == Rec(S, Node(TNeg(S.nd[x]), "neg", <<x>>, 0))
OpSub(S, x, y) == LET n == OpNeg(S, y) IN OpAdd(n[2], x, n[3])
OpBmm(S, x, y) ==
    LET a == S.nd[x] b == S.nd[y]
    IN IF ~BmmOk(a, b) THEN No(S) ELSE Rec(S, Node(TBmm(a, b), "bmm", <<x, y>>, 0))
OpDot(S, x, y) ==
    LET a == S.nd[x] b == S.nd[y]
    IN IF a.sh # b.sh THEN No(S) ELSE Rec(S, Node(TDot(a, b), "dot", <<x, y>>, 0))
OpSum(S, x) == Rec(S, Node(TSum(S.nd[x]), "sum", <<x>>, 0))
OpMap(S, x, f) ==
    LET a == S.nd[x] IN
    CASE f = "relu" -> Rec(S, Node(Map(LAMBDA v : ReluOf(v), a), "relu", <<x>>, 0))
      [] f = "abs"  -> Rec(S, Node(Map(LAMBDA v : AbsOf(v), a), "abs", <<x>>, 0))
      [] f = "tanh" -> Rec(S, Node(Map(LAMBDA v : TanhOf(v), a), "tanh", <<x>>, 0))
      [] f = "neg"  -> OpNeg(S, x)
      [] f = "none" -> <<TRUE, S, x>>

\* x + y + y + .. + y, or - .. - x: n operations in a row of which only the last
\* result is kept
OpChain(S, x, y, f, n) ==
    LET a == S.nd[x] b == S.nd[y] IN
    IF f = "neg" THEN Rec(S, NodeN(IF n % 2 = 1 THEN TNeg(a) ELSE a, "negs", <<x>>, 0, n))
    ELSE IF ~Broadcastable(a.sh, b.sh) THEN No(S)
    ELSE Rec(S, NodeN(TAdd(a, TScale(b, Lift(n))), "adds", <<x, y>>, 0, n))

\* outcome of a recorded operation as the reply of a call; S is the state to
\* go back to when it is refused
Reply(S, o) == IF o[1] THEN Share(o[2], o[3]) ELSE Rej(S)

(********************************** models *********************************)
\* one layer: activation(x * w + b)
Layer(S, x, l) ==
    LET o1 == OpBmm(S, x, l.w) IN
    IF ~o1[1] THEN No(S)
    ELSE LET o2 == OpAdd(o1[2], o1[3], l.b)
         IN IF ~o2[1] THEN No(S) ELSE OpMap(o2[2], o2[3], l.act)
RECURSIVE Layers(_, _, _, _)
Layers(S, x, ls, i) ==
    IF i > Len(ls) THEN <<TRUE, S, x>>
    ELSE LET o == Layer(S, x, ls[i])
         IN IF ~o[1] THEN No(S) ELSE Layers(o[2], o[3], ls, i + 1)

ParamNodes(ls) == FoldLeft(LAMBDA acc, l : acc \o <<l.w, l.b>>, <<>>, ls)
SetParams(ls, ns) ==
    [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.w = ns[2 * i - 1], !.b = ns[2 * i]]]

RECURSIVE ShareAll(_, _)
ShareAll(S, ns) ==
    IF ns = <<>> THEN S ELSE ShareAll(AddSlot(S, [k |-> "rc", n |-> Head(ns)]), Tail(ns))

\* p - step * gradient(p), as a fresh tensor; <<ok, tensor>>
Stepped(S, p, step) ==
    LET nd == S.nd[p] IN
    IF nd.g = 0 THEN <<FALSE, TensorOf(nd)>>
    ELSE LET g == S.nd[nd.g] IN
         IF ~MulOk(step, g) THEN <<FALSE, TensorOf(nd)>>
         ELSE LET d == TNeg(TMul(step, g)) IN
              IF ~Broadcastable(nd.sh, d.sh) THEN <<FALSE, TensorOf(nd)>>
              ELSE <<TRUE, TAdd(nd, d)>>
SgdStep(S, m, step) ==
    LET ps == ParamNodes(S.sl[m].ls)
        new == TLCEval([i \in 1..Len(ps) |-> TLCEval(Stepped(S, ps[i], step))])
        S1 == FoldLeft(LAMBDA acc, o : AddNode(acc, Leaf(o[2])), S, new)
        ns == [i \in 1..Len(ps) |-> LastNode(S) + i]
    IN IF \E i \in 1..Len(ps) : ~new[i][1] THEN Rej(S)
       ELSE Done([S1 EXCEPT !.sl[m].ls = SetParams(@, ns)])

(*********************** what can be seen of the state *********************)
SeeNode(S, n) ==
    LET g == S.nd[n].g IN
    [sh |-> S.nd[n].sh, val |-> S.nd[n].val, hg |-> g # 0,
     gsh |-> IF g = 0 THEN <<>> ELSE S.nd[g].sh, gval |-> IF g = 0 THEN <<>> ELSE S.nd[g].val]
SeeSlot(S, a) ==
    LET s == S.sl[a] IN
    CASE s.k = "rc" -> SeeNode(S, s.n)
      [] s.k = "raw" -> [sh |-> S.nd[s.n].sh, val |-> S.nd[s.n].val]
      [] s.k = "view" -> [sh |-> s.sh, val |-> s.val]
      [] s.k = "gone" -> [gone |-> TRUE]
      [] OTHER -> LET ps == ParamNodes(s.ls) IN [ps |-> [i \in 1..Len(ps) |-> SeeNode(S, ps[i])]]
See(S) == [a \in 1..Len(S.sl) |-> SeeSlot(S, a)]

(********************************** calls **********************************)
GenericFn(f, x) ==
    CASE f = "sq" -> x * x [] f = "dbl" -> x + x [] f = "one" -> 1
      [] f = "inc" -> x + 1 [] f = "id" -> x

ExecMake(S, c) ==
    CASE c.op = "new" -> IF Prod(c.sh) # Len(c.val) THEN Rej(S) ELSE Give(S, c.kind, Leaf(Mk(c.sh, LiftAll(c.val))))
      [] c.op = "fill" -> Give(S, c.kind, Leaf(Mk(c.sh, Const(Prod(c.sh), Lift(c.v)))))
      [] c.op = "scalar" -> Give(S, c.kind, Leaf(Mk(<<>>, <<Lift(c.v)>>)))
      [] c.op = "nest" ->
           LET sh == NestShape(c.x, c.d)
           IN IF -1 \in Range(sh) THEN Rej(S) ELSE Give(S, c.kind, Leaf(Mk(sh, LiftAll(NestFlat(c.x, c.d)))))
      [] c.op = "clone" ->
           IF Kind(S, c.a) = "rc" THEN Share(S, S.sl[c.a].n)
           ELSE IF Kind(S, c.a) = "raw" THEN Give(S, "raw", S.nd[S.sl[c.a].n])
           ELSE Out(AddSlot(S, S.sl[c.a]), TT(S, c.a))
      [] c.op = "to_tensor" -> LET o == ToRc(S, c.a) IN Share(o[1], o[2])
      [] c.op = "deep_clone" -> Give(S, "rc", Leaf(TT(S, c.a)))
      [] c.op = "deref" -> Give(S, "raw", S.nd[S.sl[c.a].n])
      [] c.op = "tensor" -> Share(S, S.sl[c.a].n)

ExecArith(S, c) ==
    LET a == c.a b == c.b ta == TT(S, a) tb == TT(S, b) IN
    CASE c.op = "add" ->
           IF Kind(S, a) = "rc" THEN Reply(S, OpAdd(S, S.sl[a].n, S.sl[b].n))
           ELSE IF ~Broadcastable(ta.sh, tb.sh) THEN Rej(S) ELSE Give(S, "raw", Leaf(TAdd(ta, tb)))
      [] c.op = "sub" ->
           IF Kind(S, a) = "rc" THEN Reply(S, OpSub(S, S.sl[a].n, S.sl[b].n))
           ELSE IF ~Broadcastable(ta.sh, tb.sh) THEN Rej(S) ELSE Give(S, "raw", Leaf(TAdd(ta, TNeg(tb))))
      [] c.op = "mul" ->
           IF ~MulOk(ta, tb) THEN Rej(S) ELSE Give(S, Kind(S, a), Leaf(TMul(ta, tb)))
      [] c.op = "emul" ->
           IF ta.sh # tb.sh THEN Rej(S) ELSE Give(S, "raw", Leaf(TEMul(ta, tb)))
      [] c.op \in {"bmm", "bmm_rc"} ->
           IF Kind(S, a) = "rc"
           THEN LET o == ToRc(S, b) IN Reply(S, OpBmm(o[1], S.sl[a].n, o[2]))
           ELSE IF ~BmmOk(ta, tb) THEN Rej(S)
           ELSE Give(S, IF c.op = "bmm" /\ Kind(S, a) = "raw" THEN "raw" ELSE "rc", Leaf(TBmm(ta, tb)))
      [] c.op = "chain" -> Reply(S, OpChain(S, S.sl[a].n, S.sl[b].n, c.f, c.n))
      [] c.op = "fdot" -> Reply(S, OpDot(S, S.sl[a].n, S.sl[b].n))
      [] c.op \in {"fdotnd", "rdot"} ->
           IF ta.sh # tb.sh THEN Rej(S) ELSE Give(S, "rc", Leaf(TDot(ta, tb)))
      [] c.op = "sshape" -> Val(S, ta.sh = tb.sh)
      [] c.op = "eq" -> Val(S, TEq(ta, tb))

ExecUnary(S, c) ==
    LET a == c.a t == TT(S, a) IN
    CASE c.op = "neg" -> IF Kind(S, a) = "rc" THEN Reply(S, OpNeg(S, S.sl[a].n)) ELSE Give(S, "raw", Leaf(TNeg(t)))
      [] c.op = "smul" -> Give(S, "raw", Leaf(TScale(t, Lift(c.v))))
      [] c.op = "sum" ->
           IF Kind(S, a) = "rc" THEN Reply(S, OpSum(S, S.sl[a].n))
           ELSE Give(S, IF Kind(S, a) = "raw" THEN "raw" ELSE "rc", Leaf(TSum(t)))
      [] c.op = "map" -> Reply(S, OpMap(S, S.sl[a].n, c.f))
      [] c.op = "gun" -> Give(S, "raw", Leaf(Map(LAMBDA x : GenericFn(c.f, x), t)))
      [] c.op = "view" ->
           IF ~RangesOk(t.sh, c.rs) THEN Rej(S)
           ELSE LET v == TSlice(t, c.rs)
                    o == ToRc(S, a)
                IN Out(AddSlot(o[1], [k |-> "view", n |-> o[2], sh |-> v.sh, val |-> v.val]), v)
      [] c.op = "reshape" ->
           IF Prod(t.sh) # Prod(c.sh) THEN Rej(S)
           ELSE Out(AddSlot(S, [S.sl[a] EXCEPT !.sh = c.sh]), Mk(c.sh, t.val))
      [] c.op = "get" -> IF InRange(c.idx, t.sh) THEN Val(S, t.val[Position(c.idx, t.sh)]) ELSE Err(S)
      [] c.op = "index" -> IF InRange(c.idx, t.sh) THEN Val(S, t.val[Position(c.idx, t.sh)]) ELSE Rej(S)
      [] c.op = "first" -> IF t.val = <<>> THEN Rej(S) ELSE Val(S, t.val[1])
      [] c.op = "elem" -> IF t.sh # <<>> THEN Rej(S) ELSE Val(S, t.val[1])
      [] c.op = "show" -> Val(S, t.val)
      [] c.op = "meta" -> Val(S, [sh |-> t.sh, count |-> Prod(t.sh), scalar |-> t.sh = <<>>])
      [] c.op = "bcast" -> Val(S, Broadcastable(t.sh, c.sh))
      [] c.op = "iter" -> Val(S, AllIndices(t.sh))

ExecGrad(S, c) ==
    LET n == S.sl[c.a].n IN
    CASE c.op = "backward" -> IF BackwardOk(S, n) THEN Done(Backward(S, n)) ELSE Rej(S)
      [] c.op = "zero" -> Done([S EXCEPT !.nd[n].g = 0])
      [] c.op = "upd" ->
           LET m == S.sl[c.b].n old == S.nd[n].g IN
           IF old = 0 THEN Done([S EXCEPT !.nd[n].g = m])
           ELSE IF ~Broadcastable(S.nd[old].sh, S.nd[m].sh) THEN Rej(S)
           ELSE LET S1 == AddNode(S, Leaf(TAdd(S.nd[old], S.nd[m])))
                IN Done([S1 EXCEPT !.nd[n].g = LastNode(S1)])
      [] c.op = "grad" -> IF S.nd[n].g = 0 THEN Rej(S) ELSE Share(S, S.nd[n].g)

ExecModel(S, c) ==
    CASE c.op = "lin" ->
           Done(AddSlot(S, [k |-> "lin", ls |-> <<[w |-> S.sl[c.w].n, b |-> S.sl[c.b].n, act |-> c.act]>>]))
      [] c.op = "mlp" ->
           LET ls == [i \in 1..Len(c.ms) |-> S.sl[c.ms[i]].ls[1]]
               S1 == [S EXCEPT !.sl = [a \in 1..Len(@) |-> IF a \in Range(c.ms) THEN [k |-> "gone"] ELSE @[a]]]
           IN Done(AddSlot(S1, [k |-> "mlp", ls |-> ls]))
      [] c.op = "fwd" -> Reply(S, Layers(S, S.sl[c.x].n, S.sl[c.m].ls, 1))
      [] c.op = "params" ->
           LET ns == ParamNodes(S.sl[c.m].ls) IN Val(ShareAll(S, ns), Len(ns))
      [] c.op = "setp" ->
           IF Len(c.ps) # 2 * Len(S.sl[c.m].ls) THEN Rej(S)
           ELSE Done([S EXCEPT !.sl[c.m].ls = SetParams(@, [i \in 1..Len(c.ps) |-> S.sl[c.ps[i]].n])])
      [] c.op = "setf" ->      \* the public fields of a Linear
           Done(IF c.f = "w" THEN [S EXCEPT !.sl[c.m].ls[1].w = S.sl[c.p].n]
                ELSE [S EXCEPT !.sl[c.m].ls[1].b = S.sl[c.p].n])
      [] c.op = "sgd" -> SgdStep(S, c.m, TT(S, c.lr))

MakeOps == {"new", "fill", "scalar", "nest", "clone", "to_tensor", "deep_clone", "deref", "tensor"}
ArithOps == {"add", "sub", "mul", "emul", "bmm", "bmm_rc", "chain", "fdot", "fdotnd", "rdot", "sshape", "eq"}
UnaryOps == {"neg", "smul", "sum", "map", "gun", "view", "reshape", "get", "index", "first", "elem",
             "meta", "bcast", "iter", "show"}
GradOps == {"backward", "zero", "upd", "grad"}
ModelOps == {"lin", "mlp", "fwd", "params", "setp", "setf", "sgd"}

(********************************* memory **********************************)
\* what a program can still reach through its first k slots: the tensors they stand
\* for, what those were computed from, and their gradients
SlotNodes(s) ==
    CASE s.k \in {"rc", "raw", "view"} -> {s.n}
      [] s.k \in {"lin", "mlp"} -> UNION {{s.ls[i].w, s.ls[i].b} : i \in 1..Len(s.ls)}
      [] s.k = "gone" -> {}
RECURSIVE Closure(_, _)
Closure(S, R) ==
    LET more == R \cup UNION {Range(S.nd[i].args) \cup ({S.nd[i].g} \ {0}) : i \in R}
    IN IF more = R THEN R ELSE Closure(S, more)
Reach(S, k) == Closure(S, UNION {SlotNodes(S.sl[a]) : a \in 1..k})

\* Bytes a program may take up: so much for each thing it can reach, and a constant.
\* (The library takes up less than a quarter of that.)
Spare == 8192
Weight(nd) == nd.times * (1024 + 48 * Len(nd.val))
RECURSIVE SumOver(_, _, _)
SumOver(S, R, t) == IF R = {} THEN t ELSE LET i == CHOOSE i \in R : TRUE IN SumOver(S, R \ {i}, t + Weight(S.nd[i]))
MayHold(S, k) == SumOver(S, Reach(S, k), Spare + 1024 * k)

\* "mem": the program up to call c.from, and then the rest c.n times, all handles made
\* there dropped each time; bytes held in the end through the c.base handles made
\* before, and bytes left when they are dropped, too.
ExecMem(S, c) == [S |-> S, r |-> [st |-> "ok", held |-> MayHold(S, c.base), left |-> Spare]]
AgreeMem(want, r) == r.st = "ok" /\ r.held <= want.held /\ r.left <= want.left

\* "gc": what is not within reach any more makes no difference; nor do slots at the
\* end whose handles are gone
Rank(R, i) == Cardinality({j \in R : j <= i})
Compact(S) ==
    LET live == {a \in 1..Len(S.sl) : S.sl[a].k # "gone"}
        last == IF live = {} THEN 0 ELSE CHOOSE a \in live : \A b \in live : b <= a
        R == Reach(S, last)
        kept == SetToSortSeq(R, <)
        at == TLCEval([i \in R |-> Rank(R, i)])
        node(nd) == [nd EXCEPT !.args = [k \in 1..Len(@) |-> at[@[k]]], !.g = IF @ = 0 THEN 0 ELSE at[@]]
        slot(s) == CASE s.k \in {"rc", "raw", "view"} -> [s EXCEPT !.n = at[@]]
                     [] s.k \in {"lin", "mlp"} -> [s EXCEPT !.ls = [i \in 1..Len(@) |-> [@[i] EXCEPT !.w = at[@], !.b = at[@]]]]
                     [] s.k = "gone" -> s
    IN [nd |-> [i \in 1..Len(kept) |-> node(S.nd[kept[i]])], sl |-> [a \in 1..last |-> slot(S.sl[a])]]

\* "far": shapes of any size at all, each dimension m * 2^e given as <<m, e>> (m odd, or
\* <<0, 0>>).  A tensor holds as many elements as its shape says, exactly: there is none
\* whose number does not fit the machine, whatever that number is modulo 2^64, and any
\* shape with a zero among its dimensions is that of a tensor without elements.
FarSize(ds) ==
    IF \E i \in 1..Len(ds) : ds[i][1] = 0 THEN <<0, 0>>
    ELSE <<FoldLeft(LAMBDA x, d : x * d[1], 1, ds), FoldLeft(LAMBDA x, d : x + d[2], 0, ds)>>
FarFits(ds, n) == LET p == FarSize(ds) IN p[2] <= 16 /\ p[1] * 2^p[2] = n
FarOk(S, ds, n) == [S |-> S, r |-> [st |-> "ok", n |-> n, ds |-> ds]]
FarDim(ds, k) == IF k > Len(ds) THEN <<1, 0>> ELSE ds[Len(ds) + 1 - k]
ExecFar(S, c) ==
    CASE c.how \in {"new", "reshape"} -> IF FarFits(c.ds, c.n) THEN FarOk(S, c.ds, c.n) ELSE Rej(S)
      [] c.how = "fill" -> LET p == FarSize(c.ds) IN IF p[2] <= 16 THEN FarOk(S, c.ds, p[1] * 2^p[2]) ELSE Rej(S)
      [] c.how = "add" -> \* of two tensors without elements
           LET r == IF Len(c.ds) > Len(c.es) THEN Len(c.ds) ELSE Len(c.es)
               fit(k) == LET x == FarDim(c.ds, k) y == FarDim(c.es, k) IN x = y \/ x = <<1, 0>> \/ y = <<1, 0>>
               dim(k) == IF FarDim(c.ds, k) = <<1, 0>> THEN FarDim(c.es, k) ELSE FarDim(c.ds, k)
           IN IF \E k \in 1..r : ~fit(k) THEN Rej(S) ELSE FarOk(S, [i \in 1..r |-> dim(r + 1 - i)], 0)
      [] c.how = "bmm" -> \* of matrices with nothing in common: a product is all zeros, if it can be held
           LET sh == <<c.ds[1], c.ds[2]>> p == FarSize(sh)
           IN IF p[2] <= 16 THEN FarOk(S, sh, p[1] * 2^p[2]) ELSE Rej(S)

ExecOne(S, c) ==
    CASE c.op \in MakeOps -> ExecMake(S, c)
      [] c.op \in ArithOps -> ExecArith(S, c)
      [] c.op \in UnaryOps -> ExecUnary(S, c)
      [] c.op \in GradOps -> ExecGrad(S, c)
      [] c.op \in ModelOps -> ExecModel(S, c)
      [] c.op = "obs" -> Val(S, See(S))
      [] c.op = "drop" -> Done([S EXCEPT !.sl[c.a] = [k |-> "gone"]])
      [] c.op = "mem" -> ExecMem(S, c)
      [] c.op = "far" -> ExecFar(S, c)
      [] c.op = "reset" -> Done(Empty)
      [] c.op = "gc" -> Done(Compact(S))

\* Calls made at once by several threads: backward passes and products only.
\* They do not see each other's results and their contributions to gradients
\* commute, so that one after the other is as good as any other order.
RECURSIVE ExecAll(_, _, _)
ExecAll(S, cs, rs) ==
    IF cs = <<>> THEN [S |-> S, r |-> [st |-> "ok", rs |-> rs]]
    ELSE LET x == TLCEval(ExecOne(S, Head(cs))) IN ExecAll(x.S, Tail(cs), Append(rs, x.r))
\* where a call is made from (field ctx) makes no difference
ExecHeld(S, c) == IF c.op = "many" THEN ExecAll(S, c.cs, <<>>) ELSE ExecOne(S, c)
\* operands moved into a call (field mv) are gone afterwards, even if it is refused;
\* other handles of the same tensors, and what was computed from them, are as before
Gone(S, as) == [S EXCEPT !.sl = [a \in 1..Len(@) |-> IF a \in as THEN [k |-> "gone"] ELSE @[a]]]
Exec(S, c) ==
    LET x == TLCEval(ExecHeld(S, c))
    IN IF "mv" \in DOMAIN c THEN [x EXCEPT !.S = Gone(@, Range(c.mv))] ELSE x

(**************************** state properties *****************************)
NodesOk(S) ==
    \A i \in 1..Len(S.nd) :
        /\ WellFormed(S.nd[i])
        /\ \A k \in 1..Len(S.nd[i].args) : S.nd[i].args[k] < i
\* what is true of gradients as long as only backward makes them
GradShapesOk(S) == \A i \in 1..Len(S.nd) : S.nd[i].g # 0 => S.nd[S.nd[i].g].sh = S.nd[i].sh
Unchanged(S, T) ==
    /\ Len(T.nd) >= Len(S.nd)
    /\ \A i \in 1..Len(S.nd) :
          /\ T.nd[i].sh = S.nd[i].sh /\ T.nd[i].val = S.nd[i].val
          /\ T.nd[i].op = S.nd[i].op /\ T.nd[i].args = S.nd[i].args
SameGradients(S, T) == \A i \in 1..Len(S.nd) : T.nd[i].g = S.nd[i].g
=============================================================================
