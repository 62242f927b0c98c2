------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* All programs of a bounded family: a program starts with one of Setups,   *)
(* makes Steps steps, each one of the command sequences in Cmds(S, n), and  *)
(* ends with the commands Tail(S).  TLC explores all of them, checks the    *)
(* properties below in every state and step of the specification, and       *)
(* prints every program with the replies the specification calls for,      *)
(* one a line; the harness then runs them on the real code (replay).       *)
(***************************************************************************)
EXTENDS RustLight, Json, IOUtils

CONSTANTS Setups, Cmds(_, _), Tail_(_), Steps

VARIABLES S, h, n
vars == <<S, h, n>>

\* run the commands cs from state T: final state and log of calls and replies
Run(T, cs) ==
    FoldLeft(LAMBDA acc, c :
                LET x == TLCEval(Exec(acc.S, c))
                IN [S |-> x.S, h |-> Append(acc.h, [c |-> c, r |-> x.r])],
             [S |-> T, h |-> <<>>], cs)

Init == \E p \in Setups :
            LET x == TLCEval(Run(Empty, p)) IN S = x.S /\ h = x.h /\ n = 0

Step ==
    /\ n < Steps
    /\ n' = n + 1
    /\ \E cs \in Cmds(S, n) :
          LET x == TLCEval(Run(S, cs)) IN S' = x.S /\ h' = h \o x.h

Emit ==
    /\ n = Steps \/ (n < Steps /\ Cmds(S, n) = {})
    /\ n' = Steps + 1
    /\ h' = <<>>
    /\ LET x == TLCEval(Run(S, Tail_(S)))
       IN /\ S' = x.S
          /\ PrintT("BEHAVIOUR " \o ToJson(h \o x.h))

Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

(******************************* properties ********************************)
TypeOk == NodesOk(S)

\* shapes and elements of existing tensors and views never change (C14)
ViewsKept(A, B) ==
    \A a \in 1..Len(A.sl) : A.sl[a].k = "view" => B.sl[a] = A.sl[a]
Frozen == [][Unchanged(S, S') /\ ViewsKept(S, S')]_vars

\* what is recorded as the result of an operation is the derivative of it, by
\* the independent definition in Autograd (forward mode)
GradIsDerivative ==
    \A root \in 1..Len(S.nd) :
        BackwardOk(S, root) =>
            LET D == TLCEval(Derivatives(S.nd, root)) IN
            \A i \in 1..(root - 1) :
                IF D[i] = None
                THEN \A e \in 1..Len(S.nd[i].val) : DirectionalDerivative(S.nd, root, i, e) = 0
                ELSE /\ Len(D[i]) = Len(S.nd[i].val)
                     /\ \A e \in 1..Len(D[i]) : D[i][e] = DirectionalDerivative(S.nd, root, i, e)

GradShapes == GradShapesOk(S)
=============================================================================
