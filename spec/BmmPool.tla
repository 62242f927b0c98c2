------------------------------- MODULE BmmPool -------------------------------
(***************************************************************************)
(* How the gradients of a matrix product are computed in a pool of worker   *)
(* threads.  A computation has Senders tasks that send products to channels *)
(* and Readers tasks that add up what comes out of one channel each; a      *)
(* reader ends when all senders of its computation are gone.  A worker that *)
(* waits for its tasks does other tasks meanwhile; a thread outside the     *)
(* pool just waits.  A worker inside a reader can do nothing else.          *)
(*                                                                         *)
(* TwoScopes = TRUE is the code: readers are spawned when the senders are   *)
(* done.  With FALSE (all tasks in one scope, as the code once had it) TLC  *)
(* finds the deadlock; the check makes sure of that.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bags, TLC

CONSTANTS Workers, Outside,     \* threads of the pool; other calling threads
          Calls,                \* computations to be made
          Senders, Readers, TwoScopes, None

VARIABLES queue,    \* bag of tasks waiting for a worker
          stack,    \* what each thread is doing: sequence of frames, innermost last
          sent, summed,   \* per computation: how many senders / readers have ended
          fed,      \* per computation: what has been sent
          total,    \* per computation: what has been added up
          todo,     \* computations nobody has started
          done
vars == <<queue, stack, sent, summed, fed, total, todo, done>>
Threads == Workers \cup Outside

Frame(k, c, ph) == [k |-> k, c |-> c, ph |-> ph]
Task(k, c) == [k |-> k, c |-> c]
Top(t) == stack[t][Len(stack[t])]
Pop(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)
SetTop(t, f) == [stack EXCEPT ![t] = Append(Pop(t), f)]
Put(b, e, n) == [x \in DOMAIN b \cup {e} |-> (IF x \in DOMAIN b THEN b[x] ELSE 0) + (IF x = e THEN n ELSE 0)]

Init ==
    /\ queue = EmptyBag
    /\ stack = [t \in Threads |-> <<>>]
    /\ sent = [c \in Calls |-> 0] /\ summed = [c \in Calls |-> 0]
    /\ fed = [c \in Calls |-> 0] /\ total = [c \in Calls |-> 0]
    /\ todo = Calls /\ done = {}

Waiting(t) ==
    stack[t] # <<>> /\ Top(t).k = "call" /\ Top(t).ph \in {"senders", "readers", "all"}
Over(t) ==
    LET f == Top(t) IN
    CASE f.ph = "senders" -> sent[f.c] = Senders
      [] f.ph = "readers" -> summed[f.c] = Readers
      [] f.ph = "all" -> sent[f.c] = Senders /\ summed[f.c] = Readers

\* a computation starts: on an idle thread, or as work a waiting worker picks up
Start(t, c) ==
    /\ c \in todo
    /\ \/ stack[t] = <<>>
       \/ t \in Workers /\ Waiting(t) /\ ~Over(t)
    /\ todo' = todo \ {c}
    /\ stack' = [stack EXCEPT ![t] = Append(@, Frame("call", c, IF TwoScopes THEN "senders" ELSE "all"))]
    /\ queue' = IF TwoScopes THEN Put(queue, Task("send", c), Senders)
                ELSE Put(Put(queue, Task("send", c), Senders), Task("read", c), Readers)
    /\ UNCHANGED <<sent, summed, fed, total, done>>

Take(t, e) ==
    /\ t \in Workers
    /\ stack[t] = <<>> \/ (Waiting(t) /\ ~Over(t))
    /\ e \in DOMAIN queue /\ queue[e] > 0
    /\ queue' = [queue EXCEPT ![e] = @ - 1]
    /\ stack' = [stack EXCEPT ![t] = Append(@, Frame(e.k, e.c, None))]
    /\ UNCHANGED <<sent, summed, fed, total, todo, done>>

Send(t) ==
    /\ stack[t] # <<>> /\ Top(t).k = "send"
    /\ sent' = [sent EXCEPT ![Top(t).c] = @ + 1]
    /\ fed' = [fed EXCEPT ![Top(t).c] = @ + 1]
    /\ stack' = [stack EXCEPT ![t] = Pop(t)]
    /\ UNCHANGED <<queue, summed, total, todo, done>>

\* a reader that has seen the last sender go
Read(t) ==
    /\ stack[t] # <<>> /\ Top(t).k = "read"
    /\ sent[Top(t).c] = Senders
    /\ summed' = [summed EXCEPT ![Top(t).c] = @ + 1]
    /\ total' = [total EXCEPT ![Top(t).c] = @ + fed[Top(t).c]]
    /\ stack' = [stack EXCEPT ![t] = Pop(t)]
    /\ UNCHANGED <<queue, sent, fed, todo, done>>

Continue(t) ==
    /\ Waiting(t) /\ Over(t)
    /\ LET f == Top(t) IN
       IF f.ph = "senders"
       THEN /\ queue' = Put(queue, Task("read", f.c), Readers)
            /\ stack' = SetTop(t, Frame("call", f.c, "readers"))
            /\ UNCHANGED done
       ELSE /\ stack' = [stack EXCEPT ![t] = Pop(t)]
            /\ done' = done \cup {f.c}
            /\ UNCHANGED queue
    /\ UNCHANGED <<sent, summed, fed, total, todo>>

Finished == done = Calls /\ UNCHANGED vars
Next == Finished \/ \E t \in Threads :
            \/ \E c \in Calls : Start(t, c)
            \/ \E e \in DOMAIN queue : Take(t, e)
            \/ Send(t) \/ Read(t) \/ Continue(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every result is complete when its computation is
Complete == \A c \in done : sent[c] = Senders /\ summed[c] = Readers /\ total[c] = Readers * Senders
Ends == <>(done = Calls)
=============================================================================
