------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Trace over numbers of all magnitudes: an element is m * 2^e, written     *)
(* <<m, e, lo, hi>> with m odd (or 0).  All the terms that it is the sum of *)
(* are multiples of 2^lo, and their magnitudes together less than 2^hi: as  *)
(* long as hi - lo is no more than the bits of a floating point number the  *)
(* sum is exact, whatever the order of summation.  Where it is more, or out *)
(* of the range of exponents, the element is rounded somehow: ANY.          *)
(* A number q in calls and replies stands for place q of a table.           *)
(***************************************************************************)
EXTENDS Trace

CONSTANTS P, NEMIN, EMAX
EMIN == 0 - NEMIN
Table == JsonDeserialize(IOEnv.TABLE).dyads

ANY == <<0, 1, 0, 0>>
DNoElem == <<0, 4, 0, 0>>
DZero == <<0, 0, 1, 0>>          \* the sum of no terms
DOne == <<1, 0, 0, 1>>
DLift(q) ==
    LET t == Table[q + 1]
    IN IF t[1] = 0 THEN IF t[2] = 0 THEN DZero ELSE ANY ELSE <<t[1], t[2], t[2], t[2] + t[3]>>

RECURSIVE Odd(_, _, _, _)
Odd(m, e, lo, hi) ==
    IF m = 0 THEN <<0, 0, lo, hi>> ELSE IF m % 2 = 0 THEN Odd(m \div 2, e + 1, lo, hi) ELSE <<m, e, lo, hi>>
Exact(lo, hi) == hi - lo <= P /\ lo >= EMIN /\ hi <= EMAX
NoTerms(x) == x[3] > x[4]

DPlus(x, y) ==
    IF x = ANY \/ y = ANY THEN ANY
    ELSE IF NoTerms(x) THEN y
    ELSE IF NoTerms(y) THEN x
    ELSE LET lo == Min2(x[3], y[3]) hi == Max2(x[4], y[4]) + 1
         IN IF ~Exact(lo, hi) THEN ANY
            ELSE IF x[1] = 0 THEN <<y[1], y[2], lo, hi>>
            ELSE IF y[1] = 0 THEN <<x[1], x[2], lo, hi>>
            ELSE LET e == Min2(x[2], y[2])
                 IN Odd(x[1] * 2 ^ (x[2] - e) + y[1] * 2 ^ (y[2] - e), e, lo, hi)
DTimes(x, y) ==
    IF x = ANY \/ y = ANY THEN ANY
    ELSE IF NoTerms(x) \/ NoTerms(y) THEN DZero
    ELSE LET lo == x[3] + y[3] hi == x[4] + y[4]
         IN IF ~Exact(lo, hi) THEN ANY
            ELSE IF x[1] = 0 \/ y[1] = 0 THEN <<0, 0, lo, hi>>
            ELSE <<x[1] * y[1], x[2] + y[2], lo, hi>>
DNeg(x) == <<0 - x[1], x[2], x[3], x[4]>>
DRelu(x) == IF x[1] < 0 THEN DZero ELSE x
DAbs(x) == IF x[1] < 0 THEN DNeg(x) ELSE x
DReluD(x) == IF x = ANY THEN ANY ELSE IF x[1] < 0 THEN DZero ELSE DOne
DAbsD(x) == IF x = ANY THEN ANY ELSE IF x[1] < 0 THEN DNeg(DOne) ELSE DOne
\* x - x^3/3 is x for the small, and 1 to a floating point number for the large
RECURSIVE Bits(_)
Bits(m) == IF m = 0 THEN 0 ELSE 1 + Bits(m \div 2)
Height(x) == x[2] + Bits(IF x[1] < 0 THEN 0 - x[1] ELSE x[1])     \* |x| < 2^Height
DTanh(x) ==
    IF x = ANY \/ x[1] = 0 THEN x
    ELSE IF Height(x) < -60 THEN x
    ELSE IF Height(x) > 6 THEN IF x[1] > 0 THEN DOne ELSE DNeg(DOne)
    ELSE ANY
DTanhD(x) ==
    IF x = ANY THEN ANY
    ELSE IF x[1] = 0 \/ Height(x) < -30 THEN DOne
    ELSE IF Height(x) > 6 THEN DZero
    ELSE ANY
DGenericFn(f, x) ==
    CASE f = "sq" -> DTimes(x, x) [] f = "dbl" -> DPlus(x, x) [] f = "one" -> DOne
      [] f = "inc" -> DPlus(x, DOne) [] f = "id" -> x

\* TRUE, FALSE or, where it depends on an element that is ANY, "any"
DTEq(a, b) ==
    IF a.sh # b.sh THEN FALSE
    ELSE LET Same(p) == a.val[p] = ANY \/ b.val[p] = ANY \/ (a.val[p][1] = b.val[p][1] /\ a.val[p][2] = b.val[p][2])
         IN IF \E p \in 1..Len(a.val) : ~Same(p) THEN FALSE
            ELSE IF \E p \in 1..Len(a.val) : ANY \in {a.val[p], b.val[p]} THEN "any"
            ELSE TRUE

Is(x, q) == q + 1 \in DOMAIN Table /\ (x = ANY \/ (x[1] = Table[q + 1][1] /\ x[2] = Table[q + 1][2]))
AreAll(xs, qs) == Len(xs) = Len(qs) /\ \A p \in 1..Len(xs) : Is(xs[p], qs[p])
SeenD(w, g) ==
    /\ DOMAIN w = DOMAIN g
    /\ \A f \in DOMAIN w :
          CASE f \in {"val", "gval"} -> AreAll(w[f], g[f])
            [] f = "ps" -> /\ Len(w.ps) = Len(g.ps)
                           /\ \A p \in 1..Len(w.ps) : \A h \in DOMAIN w.ps[p] :
                                IF h \in {"val", "gval"} THEN AreAll(w.ps[p][h], g.ps[p][h]) ELSE w.ps[p][h] = g.ps[p][h]
            [] OTHER -> w[f] = g[f]
DAgree(c, w, g) ==
    IF c.op = "obs" /\ g.st = "ok"
    THEN Len(w.v) = Len(g.v) /\ \A a \in 1..Len(w.v) : SeenD(w.v[a], g.v[a])
    ELSE IF c.op = "eq" /\ g.st = "ok" THEN ToString(w.v) \in {ToString("any"), ToString(g.v)}
    ELSE SeenD(w, g)

\* every element is within what it says about itself
ElementsOk == \A i \in 1..Len(S.nd) : \A p \in 1..Len(S.nd[i].val) :
    LET x == S.nd[i].val[p] IN x[1] = 0 \/ (x[2] >= x[3] /\ Height(x) <= x[4] /\ x[1] % 2 = 1)
=============================================================================
