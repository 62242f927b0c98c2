-------------------------------- MODULE Ieee --------------------------------
(***************************************************************************)
(* Trace with the arithmetic of floating point numbers on infinities and    *)
(* NaN, in place of that of Tensors.  (Sums of them do not depend on the    *)
(* order either: NaN wins, and opposite infinities make NaN.)               *)
(***************************************************************************)
EXTENDS Trace

Inf(x) == x \in {PINF, NINF}
IPlus(x, y) ==
    CASE x = BAD \/ y = BAD -> BAD
      [] x = NAN \/ y = NAN -> NAN
      [] Inf(x) /\ Inf(y) -> IF x = y THEN x ELSE NAN
      [] Inf(x) -> x
      [] Inf(y) -> y
      [] OTHER -> x + y
ITimes(x, y) ==
    CASE x = BAD \/ y = BAD -> BAD
      [] x = NAN \/ y = NAN -> NAN
      [] Inf(x) \/ Inf(y) -> IF x = 0 \/ y = 0 THEN NAN ELSE IF (x < 0) = (y < 0) THEN PINF ELSE NINF
      [] OTHER -> x * y
IGenericFn(f, x) ==
    CASE f = "sq" -> ITimes(x, x) [] f = "dbl" -> IPlus(x, x) [] f = "one" -> 1
      [] f = "inc" -> IPlus(x, 1) [] f = "id" -> x
=============================================================================
