------------------------------ MODULE SignedZero ------------------------------
(***************************************************************************)
(* Trace with the two zeros of floating point told apart: NZ is -0.        *)
(* Replaces the element-wise functions and the negation of Tensors.        *)
(***************************************************************************)
EXTENDS Trace

NZ == 2147483644
ZNeg(x) == IF x = 0 THEN NZ ELSE IF x = NZ THEN 0 ELSE IF x \in {NAN, BAD} THEN x ELSE 0 - x
ZAbs(x) ==
    IF x = NZ THEN 0 ELSE IF x \in {NAN, BAD} THEN x
    ELSE IF x = NINF THEN PINF ELSE IF x < 0 THEN 0 - x ELSE x
ZTanh(x) == IF x \in {NAN, NZ, 0} THEN x ELSE IF x > 0 THEN 1 ELSE -1
\* "rec" (one divided by the element) tells the zeros apart on its own
ZGeneric(f, x) ==
    CASE f = "id" -> x [] f = "one" -> 1
      [] f = "rec" -> CASE x = 0 -> PINF [] x = NZ -> NINF [] x = PINF -> 0 [] x = NINF -> NZ
                        [] x \in {1, -1, NAN} -> x [] OTHER -> BAD
=============================================================================
