------------------------------ MODULE ConcTrace ------------------------------
(***************************************************************************)
(* Histories of calls that several threads made at the same time on shared  *)
(* tensors: is there a way to place every single update, reset and read at  *)
(* one instant during its call that explains all the replies and the        *)
(* gradients at the end?  TLC tries all of them.                            *)
(*                                                                         *)
(* A history: [setup |-> calls made before, ev |-> events, end |-> what was *)
(* seen when all threads were done].  An event is [t, k |-> "call", c] or   *)
(* [t, k |-> "ret", r].  Calls: backward, zero, upd, and read (the gradient *)
(* or, for a plain copy, the gradient copied).                             *)
(***************************************************************************)
EXTENDS RustLight, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
MaxThreads == 8

VARIABLES k,      \* which history
          l,      \* the next event
          N,      \* nodes: never change, but for the gradients, which are in g
          sl, g,  \* slots; gradients: node -> <<BAD>> (none) or elements
          pend    \* thread -> call under way: [todo |-> actions left, res |-> reply]
vars == <<k, l, N, sl, g, pend>>

Idle == [todo |-> <<>>, res |-> None, on |-> FALSE]

SetupState(h) == FoldLeft(LAMBDA S, c : TLCEval(Exec(S, c).S), Empty, h.setup)

Init ==
    /\ k \in 1..Len(Log)
    /\ l = 1
    /\ LET S == TLCEval(SetupState(Log[k])) IN
       /\ N = S.nd /\ sl = S.sl
       /\ g = [i \in 1..Len(S.nd) |-> IF S.nd[i].g = 0 THEN None ELSE S.nd[S.nd[i].g].val]
    /\ pend = [t \in 1..MaxThreads |-> Idle]

H == Log[k]
NodeOf(a) == sl[a].n

\* what backward adds, path by path
RECURSIVE Paths(_, _, _)
Paths(nd, ct, j) ==
    IF j > Len(nd.args) THEN <<>>
    ELSE LET v == TLCEval(Pull(N, nd, j, ct))
             a == nd.args[j]
         IN <<[k |-> "add", n |-> a, v |-> v]>> \o Paths(N[a], v, 1) \o Paths(nd, ct, j + 1)

Actions(c) ==
    CASE c.op = "backward" -> Paths(N[NodeOf(c.a)], <<One>>, 1)
      [] c.op = "zero" -> <<[k |-> "zero", n |-> NodeOf(c.a), v |-> <<>>]>>
      [] c.op = "upd" -> <<[k |-> "add", n |-> NodeOf(c.a), v |-> N[NodeOf(c.b)].val]>>
      [] c.op = "read" -> <<[k |-> "read", n |-> NodeOf(c.a), v |-> <<>>]>>

\* nodes whose gradient is only ever added to before the end: it does not
\* matter when, so that it is done when the call begins
Watched ==
    {NodeOf(H.ev[i].c.a) : i \in {j \in 1..Len(H.ev) : H.ev[j].k = "call" /\ H.ev[j].c.op \in {"zero", "read"}}}

Apply(G, a) ==
    CASE a.k = "add" -> [G EXCEPT ![a.n] = AddSeq(@, a.v)]
      [] a.k = "zero" -> [G EXCEPT ![a.n] = None]
      [] a.k = "read" -> G

Call ==
    /\ l <= Len(H.ev) /\ H.ev[l].k = "call"
    /\ LET e == H.ev[l]
           as == TLCEval(Actions(e.c))
           w == TLCEval(Watched)
       IN /\ g' = FoldLeft(Apply, g, SelectSeq(as, LAMBDA a : a.n \notin w))
          /\ pend' = [pend EXCEPT ![e.t] = [todo |-> SelectSeq(as, LAMBDA a : a.n \in w), res |-> None, on |-> TRUE]]
    /\ l' = l + 1
    /\ UNCHANGED <<k, N, sl>>

\* one instant of a call under way
Instant(t) ==
    \E i \in 1..Len(pend[t].todo) :
        LET a == pend[t].todo[i] IN
        /\ \A j \in 1..(i - 1) : pend[t].todo[j] # a
        /\ g' = TLCEval(Apply(g, a))
        /\ pend' = [pend EXCEPT ![t].todo = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)),
                                ![t].res = IF a.k = "read" THEN g[a.n] ELSE None]
        /\ UNCHANGED <<k, l, N, sl>>

Ret ==
    /\ l <= Len(H.ev) /\ H.ev[l].k = "ret"
    /\ LET e == H.ev[l]
           p == pend[e.t]
       IN /\ p.on /\ p.todo = <<>>
          /\ e.r.st = "ok"
          /\ IF "hg" \in DOMAIN e.r
             THEN IF e.r.hg THEN p.res = e.r.gval ELSE p.res = None
             ELSE TRUE
          /\ pend' = [pend EXCEPT ![e.t] = Idle]
    /\ l' = l + 1
    /\ UNCHANGED <<k, N, sl, g>>

EndOk ==
    \A a \in 1..Len(sl) :
        sl[a].k = "rc" =>
            LET e == H.end[a] n == sl[a].n IN
            /\ e.sh = N[n].sh /\ e.val = N[n].val
            /\ e.hg = (g[n] # None)
            /\ e.hg => e.gval = g[n] /\ e.gsh = N[n].sh

End ==
    /\ l = Len(H.ev) + 1
    /\ \A t \in 1..MaxThreads : ~pend[t].on    \* or else they are stuck
    /\ EndOk
    /\ TLCSet(1, TLCGet(1) \cup {k})
    /\ l' = l + 1
    /\ UNCHANGED <<k, N, sl, g, pend>>

Next == Call \/ Ret \/ End \/ \E t \in 1..MaxThreads : Instant(t)
ASSUME TLCSet(1, {})
\* once a history is explained there is no need to look further
Further == k \notin TLCGet(1)
Spec == Init /\ [][Next]_vars

Explained ==
    \A i \in 1..Len(Log) : i \in TLCGet(1) \/ PrintT("REJECTED " \o ToString(i))
=============================================================================
