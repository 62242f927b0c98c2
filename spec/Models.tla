------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* The bounded families of programs, one per property.  SIZE selects the   *)
(* bounds (1: quick, 2: thorough).                                         *)
(***************************************************************************)
EXTENDS Programs

Size == atoi(IOEnv.SIZE)
Big == Size > 1
SeqsUpTo(k, A) == UNION {[1..m -> A] : m \in 0..k}
AsSeq(s) == [i \in 1..Len(s) |-> s[i]]
NoCmds(T, k) == {}
NoTail(T) == <<>>
Cat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
Each(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Last_(T) == Len(T.sl)

New(kind, sh, val) == [op |-> "new", kind |-> kind, sh |-> sh, val |-> val]
Ramp(sh, from) == [p \in 1..Prod(sh) |-> from + p]
RampNew(kind, sh, from) == New(kind, sh, Ramp(sh, from))
Mixed(sh, from) == [p \in 1..Prod(sh) |-> ((p * 3 + from) % 7) - 3]
MixedNew(kind, sh, from) == New(kind, sh, Mixed(sh, from))
Obs == [op |-> "obs"]
U(op, a) == [op |-> op, a |-> a]
Scalar(v) == [op |-> "scalar", kind |-> "rc", v |-> v]
B(op, a, b) == [op |-> op, a |-> a, b |-> b]
Idx(op, a, i) == [op |-> op, a |-> a, idx |-> i]

\* a tensor of shape sh, and a view that shows the same elements of a larger one
Grown(sh) == [d \in 1..Len(sh) |-> sh[d] + 2]
GrownVal(sh, f(_)) ==
    LET g == TLCEval(Grown(sh))
        In(u) == \A d \in 1..Len(sh) : u[d] >= 1 /\ u[d] <= sh[d]
        P(u) == Position([d \in 1..Len(sh) |-> u[d] - 1], sh)
        \* a dimension of size one is not a wildcard here
    IN [p \in 1..Prod(g) |-> LET u == Unflat(p - 1, g) IN IF In(u) THEN f(P(u)) ELSE 9]
Inner(sh) == [d \in 1..Len(sh) |-> <<1, sh[d] + 1>>]
ViewCmd(a, rs) == [op |-> "view", a |-> a, rs |-> rs]

(***************************** C01: indexing *******************************)
IdxShapes == IF Big THEN SeqsUpTo(3, 0..3) \cup [1..4 -> {1, 2}] ELSE SeqsUpTo(3, 0..2) \cup {<<3, 2>>, <<2, 1, 3>>, <<2, 1, 2, 3>>}
IndexSetups ==
    {<<RampNew("rc", sh, 0), RampNew("raw", sh, 0),
       New("rc", Grown(sh), GrownVal(sh, LAMBDA p : p)), ViewCmd(3, Inner(sh))>> : sh \in IdxShapes}
IndexTail(T) ==
    LET r == Len(T.nd[1].sh)
        idxs == SetToSeq(SeqsUpTo(IF r = 4 THEN 4 ELSE r + 1, 0..(IF Big THEN 3 ELSE 2)))
        at(a) == Each(LAMBDA i : Idx(IF (a + Len(i)) % 2 = 0 THEN "get" ELSE "index", a, i), idxs)
                 \o Each(LAMBDA i : Idx("get", a, i), idxs)
        more(a) == <<U("iter", a), U("first", a), U("elem", a), U("meta", a)>>
    IN at(1) \o at(2) \o at(4) \o more(1) \o more(2) \o more(4)

(*************************** C02: construction *****************************)
RECURSIVE Nests(_, _)
Nests(d, w) == IF d = 0 THEN {1, 2} ELSE SeqsUpTo(w, Nests(d - 1, IF d = 2 THEN w ELSE 2))
NestCmd(k, d, x) == [op |-> "nest", kind |-> k, d |-> d, x |-> x]
Deep == << <<<<1, 2>>, <<3, 4>>>>, <<<<5, 6>>, <<7, 8>>>> >>
DeepNests == {Deep, <<<<<<1>>>>>>, <<<<<<1, 2>>, <<3>>>>>>, << <<<<1>>>>, <<<<1>>, <<2>>>> >>,
              << <<<<1, 2>>, <<3, 4>>>>, <<<<1, 2, 3, 4>>>> >>, << <<<<1, 2>>>>, <<<<3>>, <<4>>>> >>, << <<<<1>>, <<2>>>>, <<<<3, 4>>>>, <<<<5, 6>>>> >>,
              << <<<<1>>>>, <<>> >>, << <<>>, <<>> >>, << <<<<>>>> >>, <<>>, << <<<<1, 2, 3>>>>, <<<<4, 5, 6>>>> >>}
BothKinds(c(_)) == <<c("rc"), c("raw")>>
MakerTail(T) ==
    LET one(a) == <<U("meta", a), U("clone", a), U("to_tensor", a), U("deep_clone", a), U("iter", a), U("elem", a), U("first", a)>>
        rcs == {a \in 1..Len(T.sl) : T.sl[a].k = "rc"}
    IN Cat([a \in 1..Min2(Len(T.sl), 2) |-> one(a)]) \o Each(LAMBDA a : U("show", a), SetToSeq(rcs)) \o <<Obs>>
ConstructSetups ==
    {<<New("rc", sh, [p \in 1..k |-> p]), New("raw", sh, [p \in 1..k |-> p])>> :
          sh \in SeqsUpTo(3, 0..2), k \in 0..9}
    \cup {<<[op |-> "fill", kind |-> k, sh |-> sh, v |-> 5]>> : k \in {"rc", "raw"}, sh \in SeqsUpTo(4, 0..2)}
    \cup {<<[op |-> "scalar", kind |-> k, v |-> v, form |-> f]>> : k \in {"rc", "raw"}, v \in {0, 1, 7}, f \in {0, 1}}
\* shapes of any size at all
FarDims == {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<3, 0>>, <<1, 32>>, <<3, 62>>, <<1, 63>>} \cup (IF Big THEN {<<1, 2>>, <<5, 0>>, <<1, 31>>, <<7, 61>>} ELSE {})
FarCmd(how, k, ds) == [op |-> "far", how |-> how, kind |-> k, ds |-> ds]
With(c, f, v) == [x \in DOMAIN c \cup {f} |-> IF x = f THEN v ELSE c[x]]
Known(ds) == LET p == FarSize(ds) IN p[2] <= 16 \/ p[2] >= 64
\* one behaviour for each kind of call
FarSetups == {<<New("rc", <<m>>, [p \in 1..m |-> p])>> : m \in 1..5}
FarTail(T) ==
    LET shapes == SetToSeq(SeqsUpTo(2, FarDims) \cup [1..3 -> FarDims \ {<<3, 0>>, <<1, 1>>}])
        known == SelectSeq(shapes, Known)
        ns == <<0, 1, 2, 3, 4, 6, 9>>
        new(ds) == Cat([j \in 1..2 |-> [i \in 1..Len(ns) |-> With(FarCmd("new", <<"rc", "raw">>[j], ds), "n", ns[i])]])
        fill(ds) == Each(LAMBDA k : FarCmd("fill", k, ds), <<"rc", "raw">>)
        reshape(ds) == Each(LAMBDA m : With(FarCmd("reshape", "view", ds), "n", m), ns)
        empty == SetToSeq({ds \in SeqsUpTo(2, FarDims) \cup {<<<<1, 63>>, <<1, 0>>, <<0, 0>>>>, <<<<1, 0>>, <<3, 62>>, <<0, 0>>>>} : FarSize(ds)[1] = 0})
        add(ds) == Each(LAMBDA es : With(FarCmd("add", "rc", ds), "es", es), empty)
        bmm == SetToSeq({FarCmd("bmm", "rc", ds) : ds \in {x \in [1..2 -> FarDims \ {<<0, 0>>}] : Known(x)}})
    IN (CASE T.nd[1].sh = <<1>> -> Cat(Each(new, shapes))
          [] T.nd[1].sh = <<2>> -> Cat(Each(fill, known))
          [] T.nd[1].sh = <<3>> -> Cat(Each(reshape, shapes))
          [] T.nd[1].sh = <<4>> -> Cat(Each(add, empty))
          [] T.nd[1].sh = <<5>> -> bmm) \o <<Obs>>
NestSetups(d) ==
    LET xs == IF d = 3 THEN DeepNests ELSE IF d = 2 THEN Nests(2, IF Big THEN 3 ELSE 2) ELSE Nests(d, 4)
    IN {<<NestCmd("rc", d, x), NestCmd("raw", d, x)>> : x \in xs}
Nest0 == NestSetups(0)
Nest1 == NestSetups(1)
Nest2 == NestSetups(2)
Nest3 == NestSetups(3)

(******************************* C03: views ********************************)
Halves(d) == {<<lo, hi>> \in (0..d) \X (0..d) : lo < hi \/ (lo = hi /\ lo \in {0, d})}
RECURSIVE RangeProducts(_)
RangeProducts(sh) ==
    IF sh = <<>> THEN {<<>>}
    ELSE {<<r>> \o q : r \in Halves(Head(sh)), q \in RangeProducts(Tail(sh))}
BadRanges(sh) ==
    IF sh = <<>> THEN {<<<<0, 1>>>>}
    ELSE {[d \in 1..Len(sh) |-> IF d = k THEN <<0, sh[d] + 1>> ELSE <<0, sh[d]>>] : k \in 1..Len(sh)}
         \cup {<<>>} \cup {[d \in 1..(Len(sh) + 1) |-> <<0, 1>>]}
         \cup {[d \in 1..Len(sh) |-> <<sh[d], sh[d] + 1>>]}
Refactor(k) ==
    IF k = 0 THEN {<<0>>, <<2, 0>>, <<>>}
    ELSE {<<k>>, <<1, k>>, <<k, 1>>, <<k + 1>>} \cup {<<i, k \div i>> : i \in {j \in 2..k : k % j = 0}}
         \cup (IF k = 1 THEN {<<>>, <<1, 1, 1>>} ELSE {}) \cup (IF k % 4 = 0 THEN {<<2, k \div 4, 2>>} ELSE {})
         \cup {<<k, 0>>}
ViewSetups ==
    {<<RampNew(k, sh, 0)>> : k \in {"rc", "raw"},
        sh \in {<<2, 3>>, <<3, 2>>, <<4>>, <<2, 1, 2>>, <<0, 2>>, <<>>} \cup (IF Big THEN {<<2, 2, 2>>, <<3, 3>>, <<1, 2, 3>>} ELSE {})}
ViewCmds(T, k) ==
    LET a == Last_(T)
        t == TT(T, a)
        slices == {<<ViewCmd(a, rs)>> : rs \in RangeProducts(t.sh) \cup BadRanges(t.sh)}
        shapes == IF Kind(T, a) = "view" THEN {<<[op |-> "reshape", a |-> a, sh |-> sh]>> : sh \in Refactor(Len(t.val))} ELSE {}
    IN slices \cup shapes
ViewTail(T) ==
    LET v == Last_(T)
        t == TT(T, v)
        m == IF t.sh = <<>> THEN 1 ELSE t.sh[Len(t.sh)]
        same == v + 1          \* a tensor with the elements the view should show
        mat == v + 2
        sc == v + 3
        raw == v + 4
    IN IF Kind(T, v) # "view" THEN <<Obs>> ELSE
       <<New("rc", t.sh, t.val), RampNew("raw", <<m, 2>>, 0), Scalar(2), New("raw", t.sh, t.val),
         U("iter", v), U("sum", v), U("meta", v), U("to_tensor", v), U("tensor", v), U("deep_clone", v), U("first", v), U("elem", v),
         [op |-> "smul", a |-> v, v |-> 3], [op |-> "gun", a |-> v, f |-> "sq"],
         B("mul", same, v), B("mul", sc, v), B("emul", v, same), B("emul", same, v), B("fdotnd", v, same), B("fdotnd", same, v),
         B("eq", v, same), B("eq", v, 1), B("sshape", v, same), B("bmm", v, mat), B("bmm_rc", v, mat),
         [op |-> "bcast", a |-> v, sh |-> <<2, 1>>],
         B("add", raw, v), B("mul", raw, v), B("rdot", raw, v), Obs>>

(**************************** pairs of shapes ******************************)
Shapes2(r, d) == {AsSeq(s) : s \in SeqsUpTo(r, 0..d)}
PairShapes == IF Big THEN Shapes2(3, 3) ELSE Shapes2(3, 2) \cup {<<3>>, <<3, 1>>, <<2, 3>>, <<1, 3>>}
Pair(s, t) == <<RampNew("rc", s, 0), RampNew("rc", t, 2), RampNew("raw", s, 0), RampNew("raw", t, 2)>>
ViewPair(s, t) == Pair(s, t) \o <<New("rc", Grown(t), GrownVal(t, LAMBDA p : p + 2)), ViewCmd(5, Inner(t))>>
PairSetups == {Pair(s, t) : s \in PairShapes, t \in PairShapes}
ViewPairSetups ==
    LET shs == {sh \in PairShapes : Len(sh) < 3 \/ 0 \notin Range(sh)}
    IN {ViewPair(s, t) : s \in shs, t \in shs}

AddTail(T) ==
    <<B("add", 1, 2), B("sub", 1, 2), B("add", 3, 4), B("sub", 3, 4), B("add", 3, 2), B("sub", 3, 2),
      [op |-> "bcast", a |-> 1, sh |-> T.nd[2].sh], [op |-> "bcast", a |-> 3, sh |-> T.nd[2].sh], U("neg", 1), U("neg", 3), Obs>>
AddViewTail(T) == <<B("add", 3, 6), [op |-> "bcast", a |-> 6, sh |-> T.nd[1].sh]>> \o AddTail(T)

MulTail(T) ==
    <<B("mul", 1, 2), B("mul", 1, 4), B("mul", 3, 4), B("mul", 3, 2), B("emul", 1, 4), B("emul", 3, 2), B("mul", 2, 2),
      [op |-> "smul", a |-> 1, v |-> 3], [op |-> "smul", a |-> 3, v |-> 0], Obs>>
MulViewTail(T) ==
    <<B("mul", 1, 6), B("mul", 3, 6), B("emul", 6, 1), B("emul", 3, 6), B("emul", 6, 6), [op |-> "smul", a |-> 6, v |-> 2]>> \o MulTail(T)

BmmTail(T) ==
    <<B("bmm", 1, 2), B("bmm", 3, 4), B("bmm_rc", 1, 4), B("bmm_rc", 3, 2), B("bmm", 1, 4), B("bmm", 3, 2)>>
BmmViewTail(T) ==
    <<B("bmm", 1, 6), B("bmm", 3, 6), B("bmm", 6, 1), B("bmm_rc", 6, 3), B("bmm", 6, 6)>> \o BmmTail(T)

ReduceTail(T) ==
    <<U("sum", 1), U("sum", 3), B("fdot", 1, 2), B("fdotnd", 1, 2), B("fdotnd", 3, 2), B("rdot", 3, 4), B("rdot", 3, 2), B("fdotnd", 1, 1)>>
ReduceViewTail(T) == <<U("sum", 6), B("fdotnd", 6, 1), B("fdotnd", 3, 6), B("rdot", 3, 6), B("rdot", 4, 6), B("fdotnd", 6, 6)>> \o ReduceTail(T)

(************************ C08: element-wise functions **********************)
MapValues == {0, 1, -1, 3, 24, -24, 40, NAN, PINF, NINF}
MapSetups ==
    {<<New("rc", <<3>>, v)>> : v \in [1..3 -> IF Big THEN MapValues ELSE {0, -1, 30, NAN, PINF, NINF}]}
    \cup {<<New("rc", sh, [p \in 1..Prod(sh) |-> v])>> : sh \in SeqsUpTo(3, 0..2), v \in MapValues}
MapTail(T) ==
    LET vs == Range(T.nd[1].val)
        map(f) == [op |-> "map", a |-> 1, f |-> f]
        plain == vs \cap Special = {}
    IN <<map("relu"), map("abs")>>
       \o (IF \A v \in vs : v = NAN \/ TanhExact(v) THEN <<map("tanh")>> ELSE <<>>)
       \o (IF plain THEN <<[op |-> "gun", a |-> 1, f |-> "sq"], [op |-> "gun", a |-> 1, f |-> "inc"], U("neg", 1)>> ELSE <<>>)
       \o <<[op |-> "gun", a |-> 1, f |-> "id"], [op |-> "gun", a |-> 1, f |-> "one"], Obs>>

(***************************** C18: equality *******************************)
EqTensors == UNION {{<<sh, v>> : v \in [1..Prod(sh) -> {0, 1}]} :
                     sh \in {<<>>, <<0>>, <<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<0, 2>>, <<2, 0>>} \cup (IF Big THEN {<<2, 2>>, <<3>>, <<1, 1, 2>>} ELSE {<<2, 2>>})}
EqSetups == {<<New("rc", x[1], x[2]), New("rc", y[1], y[2]), New("raw", x[1], x[2]), New("raw", y[1], y[2]),
               New("rc", Grown(y[1]), GrownVal(y[1], LAMBDA p : y[2][p])), ViewCmd(5, Inner(y[1]))>> : x \in EqTensors, y \in EqTensors}
EqTail(T) ==
    <<B("eq", 1, 2), B("eq", 2, 1), B("eq", 3, 4), B("eq", 1, 4), B("eq", 3, 2), B("eq", 6, 1), B("eq", 6, 3), B("eq", 6, 6), B("eq", 6, 2),
      B("sshape", 1, 4), B("sshape", 6, 1), U("sum", 1), U("backward", 7), B("eq", 1, 1), B("eq", 1, 3), U("clone", 1), B("eq", 8, 1), B("eq", 1, 2)>>

(**************************** C09: gradients *******************************)
Unaries == {"sum", "neg"}
Chain(a, b, f, i) == [op |-> "chain", a |-> a, b |-> b, f |-> f, n |-> i]
RcSlots(T) == {a \in 1..Len(T.sl) : T.sl[a].k = "rc"}
Computed(T) == {a \in RcSlots(T) : T.nd[T.sl[a].n].op # "leaf"}
GraphOps(T, args) ==
    {<<B(op, a, b)>> : op \in {"add", "sub", "bmm", "fdot"}, a \in args, b \in args}
    \cup {<<U(op, a)>> : op \in Unaries, a \in args}
    \cup {<<[op |-> "map", a |-> a, f |-> f]>> : a \in args, f \in {"relu", "abs"}}
    \cup {<<Chain(a, b, "add", 3)>> : a \in args, b \in args \cap {1, 2}}
    \cup {<<Chain(a, a, "neg", i)>> : a \in args, i \in IF Big THEN {2, 3} ELSE {3}}
Uses(c) == IF "b" \in DOMAIN c THEN {c.a, c.b} ELSE {c.a}
GraphCmds(T, k) ==
    {cs \in GraphOps(T, RcSlots(T)) :
        /\ Computed(T) # {} => Last_(T) \in Uses(cs[1]) 
        /\ Exec(T, cs[1]).r.st = "ok"}
GraphFamily(shs) == [i \in 1..Len(shs) |-> MixedNew("rc", shs[i], i)]
GraphFamilies ==
    {<< <<2>>, <<1>>, <<>> >>, << <<2, 2>>, <<2, 1>>, <<1, 2>> >>, << <<2, 1, 2>>, <<2, 2>> >>, << <<1>>, <<3>>, <<3>> >>}
    \cup (IF Big THEN {<< <<2, 3>>, <<3, 2>>, <<3>> >>, << <<2, 2, 1>>, <<1, 2>>, <<2>> >>, << <<1, 1>>, <<>>, <<1>> >>, << <<2, 0>>, <<0, 1>>, <<1>> >>} ELSE {})
GraphSetups == {GraphFamily(f) : f \in GraphFamilies}
GraphTail(T) ==
    LET a == Last_(T) IN
    IF Prod(T.nd[T.sl[a].n].sh) = 1 THEN <<U("backward", a), Obs, U("backward", a), Obs>>
    ELSE <<U("backward", a), U("sum", a), U("backward", a + 1), Obs, B("fdot", a, a), U("backward", a + 2), Obs>>

(***************************** C10: histories ******************************)
HistSetups ==
    LET base == <<New("rc", <<2>>, <<-1, 2>>), New("rc", <<1>>, <<3>>), B("add", 1, 2), B("fdot", 3, 1)>>
        shared == <<New("rc", <<1, 2>>, <<1, 2>>), New("rc", <<2, 1>>, <<3, -1>>), B("bmm", 1, 2), U("sum", 3)>>
    IN {base, base \o <<U("backward", 4)>>, base \o <<U("backward", 4), U("grad", 1)>>,
        shared, shared \o <<U("backward", 4), U("grad", 1)>>, base \o <<U("backward", 4), New("rc", <<3>>, <<1, 2, 3>>)>>, base \o <<U("clone", 1), U("backward", 4)>>}
HistCmds(T, k) ==
    LET rcs == RcSlots(T)
        roots == {a \in rcs : BackwardOk(T, T.sl[a].n)}
        node(a) == T.nd[T.sl[a].n]
    IN {<<U("backward", a)>> : a \in roots}
       \cup {<<U("zero", a)>> : a \in rcs}
       \cup {<<U("grad", a)>> : a \in {x \in rcs : Big \/ node(x).g # 0}}
       \cup {<<B("upd", a, b)>> : <<a, b>> \in {p \in rcs \X rcs : p[1] < p[2] /\ node(p[1]).sh = node(p[2]).sh}}
       \* these are refused
       \cup {<<B("upd", a, b)>> : <<a, b>> \in {p \in rcs \X rcs : node(p[1]).g # 0 /\ ~Broadcastable(node(p[1]).sh, node(p[2]).sh)}}
       \cup {<<U(op, a)>> : op \in {"clone", "deep_clone"}, a \in {1, Last_(T)} \cap rcs}
       \cup {<<B("add", a, b)>> : <<a, b>> \in {p \in {1, Last_(T)} \X {2, Last_(T)} : p[1] \in rcs /\ p[2] \in rcs /\ Broadcastable(node(p[1]).sh, node(p[2]).sh)}}
       \cup {<<U("deref", 1)>>, <<U("sum", 3)>>}
HistTail(T) == <<Obs, U("backward", 4), Obs>>

\* The gradient of a node is what the history says: the sum of all contributions
\* since its last reset.  Nodes never change, so that every contribution can be
\* told, by the independent definition of derivative, from the final state.
NodeAt(a) == S.sl[a].n
RECURSIVE LedgerOf(_, _, _)
LedgerOf(node, i, e) ==      \* element e of what calls 1..i contributed; None when nothing
    IF i = 0 THEN None
    ELSE LET c == h[i].c
             ok == h[i].r.st = "ok"
             before(x) == IF x = None THEN 0 ELSE x[1]
         IN IF ~ok THEN LedgerOf(node, i - 1, e)
            ELSE IF c.op = "zero" /\ S.sl[c.a].k = "rc" /\ NodeAt(c.a) = node THEN None
            ELSE IF c.op = "upd" /\ NodeAt(c.a) = node
                 THEN LET x == LedgerOf(node, i - 1, e) IN <<before(x) + S.nd[NodeAt(c.b)].val[e]>>
            ELSE IF c.op = "backward" /\ node < NodeAt(c.a) /\ Derivatives(S.nd, NodeAt(c.a))[node] # None
                 THEN LET x == LedgerOf(node, i - 1, e) IN <<before(x) + DirectionalDerivative(S.nd, NodeAt(c.a), node, e)>>
            ELSE LedgerOf(node, i - 1, e)
LedgerOk ==
    n <= Steps =>
    \A a \in RcSlots(S) :
        LET nd == S.nd[NodeAt(a)] IN
        \* gradients themselves and plain copies may be given a gradient unseen
        \A e \in 1..Len(nd.val) :
            LET x == LedgerOf(NodeAt(a), Len(h), e)
            IN IF nd.g = 0 THEN x = None ELSE x = <<S.nd[nd.g].val[e]>>

(************************ C14: operands never change ***********************)
ImmSetups ==
    {<<New("rc", <<2, 2>>, <<1, -2, 0, 3>>), New("rc", <<1, 2>>, <<2, -1>>), New("raw", <<2, 2>>, <<1, 2, 3, 4>>),
       ViewCmd(1, <<<<0, 2>>, <<0, 1>>>>), [op |-> "lin", w |-> 1, b |-> 2, act |-> "relu"], [op |-> "scalar", kind |-> "rc", v |-> 1],
       B("add", 1, 2), U("sum", 7), U("backward", 8)>>,
     <<New("rc", <<2>>, <<1, -2>>), New("rc", <<2>>, <<2, -1>>), New("raw", <<2>>, <<1, 2>>),
       ViewCmd(3, <<<<0, 2>>>>), [op |-> "lin", w |-> 1, b |-> 2, act |-> "none"], [op |-> "scalar", kind |-> "rc", v |-> -1],
       B("fdot", 1, 2), B("add", 7, 1), U("backward", 7)>>}
ImmCmds(T, k) ==
    LET rcs == {1, 2, 6} \cup {a \in RcSlots(T) : a >= 7}
        all == {1, 2, 3, 4, Last_(T)} \cap {a \in 1..Len(T.sl) : T.sl[a].k \in {"rc", "raw", "view"}}
    IN {<<c, Obs>> : c \in
         {B(op, a, b) : op \in {"add", "sub", "mul", "bmm", "fdot"}, a \in rcs, b \in {1, 2, Last_(T)} \cap rcs}
         \cup {B(op, 3, b) : op \in {"add", "mul", "bmm", "rdot"}, b \in all}
         \cup {B(op, a, b) : op \in {"emul", "fdotnd"}, a \in all, b \in {1, 4}}
         \cup {B("eq", 4, b) : b \in all}
         \cup {U(op, a) : op \in {"sum", "clone", "to_tensor", "deep_clone", "iter"}, a \in all}
         \cup {U(op, a) : op \in {"zero", "backward", "neg"}, a \in rcs}
         \cup {U("grad", a) : a \in {1, 2}}
         \cup {[op |-> "map", a |-> a, f |-> f] : a \in {1, Last_(T)} \cap rcs, f \in {"relu", "abs"}}
         \cup {[op |-> "smul", a |-> a, v |-> 2] : a \in {1, 3, 4}}
         \cup {[op |-> "gun", a |-> a, f |-> "inc"] : a \in {1, 3, 4}}
         \cup {B("upd", 1, 1), B("upd", 2, 2)}
         \cup {[op |-> "fwd", m |-> 5, x |-> x] : x \in {1, 2}}
         \cup {[op |-> "sgd", m |-> 5, lr |-> 6], [op |-> "params", m |-> 5], [op |-> "setp", m |-> 5, ps |-> <<2, 1>>]}
         \cup {[op |-> "reshape", a |-> 4, sh |-> <<2>>], [op |-> "reshape", a |-> 4, sh |-> <<3>>]}}
ObsTail(T) == <<Obs>>

(******************** C19: what is no longer in reach **********************)
Mem(from, times) == [op |-> "mem", from |-> from, base |-> from, n |-> times]
\* the whole program over and over; and all but the making of the first tensors
Made(T) == Cardinality({i \in 1..Len(T.nd) : \A j \in 1..i : T.nd[j].op = "leaf"})
MemGraphTail(T) ==
    LET a == Last_(T)
        last == IF Prod(T.nd[T.sl[a].n].sh) = 1 THEN <<U("backward", a), Obs>>
                ELSE <<U("sum", a), U("backward", a + 1), Obs>>
    IN last \o <<Mem(0, 60), Mem(Made(T), 60)>>
\* a gradient that is set by hand may refer back to what it is the gradient of
MemHistCmds(T, k) == {cs \in HistCmds(T, k) : cs[1].op # "upd"}
MemTail(T) == <<Obs, Mem(0, 60)>>

(********************** C15 to C17: models and training ********************)
Layer2(w, b, act) == [op |-> "lin", w |-> w, b |-> b, act |-> act]
Fwd(m, x) == [op |-> "fwd", m |-> m, x |-> x]
Sgd(m, lr) == [op |-> "sgd", m |-> m, lr |-> lr]
Params(m) == [op |-> "params", m |-> m]
\* slots: 1 input, 2 target, 3 step, 4.. parameters and layers; the model is the last
LinSetup(act) ==
    <<New("rc", <<2, 2>>, <<1, 0, -1, 2>>), New("rc", <<2, 1>>, <<1, -1>>), Scalar(1),
      New("rc", <<2, 1>>, <<1, -1>>), New("rc", <<1>>, <<1>>), Layer2(4, 5, act)>>
MlpSetup(act1, act2) ==
    <<New("rc", <<1, 2>>, <<1, -1>>), New("rc", <<1, 1>>, <<1>>), Scalar(1),
      New("rc", <<2, 2>>, <<1, -1, 0, 1>>), New("rc", <<2>>, <<0, 1>>), New("rc", <<2, 1>>, <<1, 2>>), New("rc", <<1, 1>>, <<-1>>),
      Layer2(4, 5, act1), Layer2(6, 7, act2), [op |-> "mlp", ms |-> <<8, 9>>]>>
TiedSetup ==      \* one tensor in two layers
    <<New("rc", <<1, 2>>, <<1, -1>>), New("rc", <<1, 2>>, <<1, 0>>), Scalar(1),
      New("rc", <<2, 2>>, <<1, -1, 0, 1>>), New("rc", <<2>>, <<0, 1>>), Layer2(4, 5, "none"), Layer2(4, 5, "relu"),
      [op |-> "mlp", ms |-> <<6, 7>>]>>
Models_(T) == {a \in 1..Len(T.sl) : T.sl[a].k \in {"lin", "mlp"}}
TheModel(T) == CHOOSE m \in Models_(T) : \A o \in Models_(T) : o <= m
ModelSetups == {LinSetup(a) : a \in {"none", "relu", "abs", "neg"}} \cup {MlpSetup(a, b) : a \in {"none", "relu"}, b \in {"none", "abs", "neg"}} \cup {TiedSetup}

\* one gradient computation: forward, loss, backward
LossSum(T, m, x) == <<Fwd(m, x), U("sum", Last_(T) + 1), U("backward", Last_(T) + 2)>>
LossDot(T, m, x) ==       \* squared distance to the target
    LET l == Last_(T) IN <<Fwd(m, x), B("sub", l + 1, 2), B("fdot", l + 2, l + 2), U("backward", l + 3)>>

SgdCmds(T, k) ==
    LET m == TheModel(T)
        ps == ParamNodes(T.sl[m].ls)
    IN {LossSum(T, m, 1), LossDot(T, m, 1)} \cup {<<Sgd(m, 3), Obs>>, <<Params(m)>>, <<U("zero", 4)>>, <<U("zero", 5)>>,
        <<B("upd", 4, 4)>>, <<U("backward", Last_(T))>>, <<[op |-> "setp", m |-> m, ps |-> [i \in 1..Len(ps) |-> 3 + i]]>>}
       \cup {<<U("clone", 4)>>}
SgdOkCmds(T, k) == {cs \in SgdCmds(T, k) : cs[1].op \notin {"backward", "setp"} \/
                       (cs[1].op = "backward" /\ Kind(T, cs[1].a) = "rc") \/
                       (cs[1].op = "setp" /\ \A i \in 1..Len(cs[1].ps) : Kind(T, cs[1].ps[i]) = "rc")}

ModelTail(T) == LET m == TheModel(T) IN <<Obs, Fwd(m, 1), Sgd(m, 3), Obs, Params(m), Obs>>

ModelCmds(T, k) ==
    LET m == TheModel(T)
        ps == ParamNodes(T.sl[m].ls)
        np == Len(ps)
        l == Last_(T)
        have == {a \in RcSlots(T) : a > 3}
        lists == IF np = 2 THEN {<<a, b>> : a \in have, b \in have} ELSE
                 IF Cardinality(have) < 4 THEN {} ELSE
                 LET s == SetToSeq(have) IN {[i \in 1..np |-> s[((i + j) % Len(s)) + 1]] : j \in 0..(Len(s) - 1)}
    IN {<<Fwd(m, a)>> : a \in {1, 2, 5, l} \cap RcSlots(T)}
       \cup {<<[op |-> "params", m |-> m, form |-> f]>> : f \in 0..2}
       \cup {<<[op |-> "setp", m |-> m, ps |-> q], Obs>> : q \in lists}
       \* lists that are too short or, for several layers, too long
       \cup {<<[op |-> "setp", m |-> m, ps |-> q]>> : q \in {<<>>, <<4>>} \cup (IF T.sl[m].k = "mlp" THEN {[i \in 1..j |-> 4] : j \in {np - 1, np + 1, np + 2}} ELSE {})}
       \cup {<<[op |-> "setf", m |-> m, p |-> a, f |-> f]>> : a \in IF T.sl[m].k = "lin" THEN have ELSE {}, f \in {"w", "b"}}
       \cup (IF Exec(T, Fwd(m, 1)).r.st = "ok" THEN {LossSum(T, m, 1)} ELSE {})
       \cup {<<New("rc", <<2, 2>>, <<k, 1, 2, -1>>)>>, <<New("rc", <<1, 2>>, <<k, -1>>)>>}
ModelsTail(T) == LET m == TheModel(T) IN <<Obs, Fwd(m, 1), Fwd(m, 2), [op |-> "params", m |-> m, form |-> 0], Obs>>

\* an iteration of training: which input, which loss, gradients of the inputs
\* reset or not, the parameters listed or not
TrainCmds(T, k) ==
    LET m == TheModel(T)
        l == Last_(T)
        other == IF T.nd[T.sl[1].n].sh[1] = 2 THEN New("rc", <<2, 2>>, <<0, 1, 1, 1>>) ELSE New("rc", <<1, 2>>, <<0, 1>>)
        T1 == AddSlot(T, [k |-> "gone"])
        tame(b) == \A p \in Range(ParamNodes(T.sl[m].ls)) : \A e \in Range(T.nd[p].val) : e \in (0 - b)..b
        linear == {LossSum(T, m, 1) \o <<Sgd(m, 3), Obs>>, <<U("zero", 1)>> \o LossSum(T, m, 1) \o <<Params(m), Sgd(m, 3), Obs>>}
    \* larger numbers would not be exact in every element type
    IN IF ~tame(2000) THEN {} ELSE IF ~tame(30) THEN linear ELSE
       {LossSum(T, m, 1) \o <<Sgd(m, 3), Obs>>, LossDot(T, m, 1) \o <<Sgd(m, 3), Obs>>,
        <<other>> \o LossDot(T1, m, l + 1) \o <<Sgd(m, 3), Obs>>,
        <<U("zero", 1)>> \o LossSum(T, m, 1) \o <<Params(m), Sgd(m, 3), Obs>>,
        LossSum(T, m, 1) \o LossDot(AddSlot(AddSlot(T, [k |-> "gone"]), [k |-> "gone"]), m, 1) \o <<Sgd(m, 3), Obs>>}
\* training goes on and on with the model and the data it began with
MemTrainTail(T) == LET m == TheModel(T) IN <<Obs, Mem(m, 60), Mem(0, 40)>>
=============================================================================
