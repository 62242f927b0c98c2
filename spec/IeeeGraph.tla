------------------------------ MODULE IeeeGraph ------------------------------
(***************************************************************************)
(* Gradients of computations with infinities and NaN in them.  Where the    *)
(* chain rule multiplies zero by an infinity or by NaN, or asks for the     *)
(* derivative at NaN, there is no telling what a gradient has to be: ANY.   *)
(* Everywhere else the gradient is that of Autograd: an infinite            *)
(* contribution must not spoil elements it has nothing to do with.          *)
(***************************************************************************)
EXTENDS Ieee

ANY == 2147483643
Odd(x) == x \in {NAN, PINF, NINF}
JPlus(x, y) == IF x = ANY \/ y = ANY THEN ANY ELSE IPlus(x, y)
JTimes(x, y) ==
    IF x = ANY \/ y = ANY \/ (x = 0 /\ Odd(y)) \/ (Odd(x) /\ y = 0) THEN ANY ELSE ITimes(x, y)
JGenericFn(f, x) ==
    CASE f = "sq" -> JTimes(x, x) [] f = "dbl" -> JPlus(x, x) [] f = "one" -> 1
      [] f = "inc" -> JPlus(x, 1) [] f = "id" -> x
JNegOf(x) == IF x = ANY THEN ANY ELSE IF x \in {NAN, BAD} THEN x ELSE 0 - x
JReluOf(x) == IF x \in {NAN, ANY} THEN x ELSE IF x < 0 THEN 0 ELSE x
JAbsOf(x) == IF x \in {NAN, ANY, BAD} THEN x ELSE IF x < 0 THEN 0 - x ELSE x
JTanhOf(x) == IF x \in {NAN, ANY} THEN x ELSE IF x = 0 THEN 0 ELSE IF x > 0 THEN 1 ELSE -1
JReluD(x) == IF x \in {NAN, ANY} THEN ANY ELSE IF x < 0 THEN 0 ELSE 1
JAbsD(x) == IF x \in {NAN, ANY} THEN ANY ELSE IF x < 0 THEN -1 ELSE 1
JTanhD(x) == IF x \in {NAN, ANY} THEN ANY ELSE IF x = 0 THEN 1 ELSE 0

\* The contributions to a cotangent may be added up before they are passed on, or each
\* passed on by itself.  With infinities that is not the same ((2 - 1) * inf is not
\* 2 * inf - 1 * inf): where the two differ there is no telling, either.
RECURSIVE ByPath(_, _, _, _), ByPathArgs(_, _, _, _, _)
ByPath(N, G, i, ct) ==
    LET G1 == TLCEval([G EXCEPT ![i] = AddSeq(@, ct)]) IN ByPathArgs(N, G1, i, ct, 1)
ByPathArgs(N, G, i, ct, k) ==
    IF k > Len(N[i].args) THEN G
    ELSE ByPathArgs(N, ByPath(N, G, N[i].args[k], TLCEval(Pull(N, N[i], k, ct))), i, ct, k + 1)
JDerivatives(N, root) ==
    LET none == [i \in 1..root |-> None]
        A == PullFrom(N, TLCEval([none EXCEPT ![root] = <<One>>]), root)
        B == ByPath(N, none, root, <<One>>)
    IN TLCEval([i \in 1..root |->
          IF A[i] = None THEN None
          ELSE [p \in 1..Len(A[i]) |-> IF A[i][p] = B[i][p] THEN A[i][p] ELSE ANY]])

FitAll(as, qs) == Len(as) = Len(qs) /\ \A p \in 1..Len(as) : as[p] \in {ANY, qs[p]}
Seen(w, g) ==
    /\ DOMAIN w = DOMAIN g
    /\ \A f \in DOMAIN w : IF f \in {"val", "gval"} THEN FitAll(w[f], g[f]) ELSE w[f] = g[f]
JAgree(c, w, g) ==
    IF c.op = "obs" /\ g.st = "ok"
    THEN Len(w.v) = Len(g.v) /\ \A a \in 1..Len(w.v) : Seen(w.v[a], g.v[a])
    ELSE Seen(w, g)
=============================================================================
