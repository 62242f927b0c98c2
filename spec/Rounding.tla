------------------------------ MODULE Rounding ------------------------------
(***************************************************************************)
(* Computations that have to round.  The specification leaves open how a    *)
(* sum is rounded, that is, in which order it is taken, but not that it     *)
(* always is in the same way: what comes out is a function of what goes in, *)
(* however often it is computed, wherever, and along with what.  Products   *)
(* of matrices and their gradients have to be near the exact ones, too.     *)
(*                                                                          *)
(* The log has lines {"c": computation, "r": what came out}.  A computation *)
(* has a key; "again" is the one of the same key before.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE Add(_)
Add(s) == IF s = <<>> THEN 0 ELSE Head(s) + Add(Tail(s))
Abs(x) == IF x < 0 THEN -x ELSE x
Entries(rows, cols, E(_, _)) == [i \in 1..(rows * cols) |-> E((i - 1) \div cols, (i - 1) % cols)]

\* the exact product of a (m x k) and b (k x n), and the gradients of dot(product, w)
At(s, cols, i, j) == s[i * cols + j + 1]
Product(c) == Entries(c.m, c.n, LAMBDA i, j : Add([l \in 1..c.k |-> At(c.a, c.k, i, l - 1) * At(c.b, c.n, l - 1, j)]))
LeftGrad(c) == Entries(c.m, c.k, LAMBDA i, l : Add([j \in 1..c.n |-> At(c.w, c.n, i, j - 1) * At(c.b, c.n, l, j - 1)]))
RightGrad(c) == Entries(c.k, c.n, LAMBDA l, j : Add([i \in 1..c.m |-> At(c.w, c.n, i - 1, j) * At(c.a, c.k, i - 1, l)]))

\* below 2^30 the 24 bits of f32 are off by 32 at most, once for each of the terms
Near(got, exact, terms) ==
    /\ Len(got) = Len(exact)
    /\ \A i \in 1..Len(got) : Abs(got[i]) < 1073741824 /\ Abs(got[i] - exact[i]) <= 32 * terms
Right(c, out) ==
    CASE c.op = "product" ->
           /\ Len(out) = 3
           /\ Near(out[1], Product(c), c.k) /\ Near(out[2], LeftGrad(c), c.n) /\ Near(out[3], RightGrad(c), c.m)
      [] c.op = "train" -> out # <<>>

VARIABLES l,    \* the next line
          key,  \* of the computation last seen
          known \* what came out of it
vars == <<l, key, known>>
Init == l = 1 /\ key = -1 /\ known = <<>>

Next ==
    /\ l <= Len(Log)
    /\ l' = l + 1
    /\ LET e == Log[l]
           new == e.c.op # "again"
           must == IF new /\ e.r.st = "ok" THEN e.r.outs[1] ELSE known
           ok == /\ e.r.st = "ok"
                 /\ new \/ e.c.key = key
                 /\ \A i \in 1..Len(e.r.outs) : e.r.outs[i] = must
                 /\ new => Right(e.c, must)
       IN /\ key' = e.c.key
          /\ known' = must
          /\ IF ok THEN TRUE
             ELSE PrintT("MISMATCH " \o ToString(l) \o (IF new THEN " another value" ELSE " the same as before"))
Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
