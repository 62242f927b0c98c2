------------------------------- MODULE GradCell -------------------------------
(***************************************************************************)
(* The gradient of one tensor, shared by several threads: a cell behind a   *)
(* readers-writer lock.  Threads add to it (update_grad, and so backward),  *)
(* reset it (zero_grad) and read it (grad, or a copy of the tensor).  How   *)
(* the calls use the lock is spelled out step by step; what they amount to  *)
(* is the specification Whole: every call takes effect at one instant.      *)
(*                                                                         *)
(* Split = FALSE is the code of the repository: an addition reads and       *)
(* writes under one lock.  Split = TRUE reads under a lock for reading and  *)
(* writes under another one later, which loses additions: TLC must say so.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads,  \* who
          Calls,    \* how many calls each makes
          Split

None == -1
Kinds == {"add", "zero", "read"}
\* what call i of thread t adds; the sums of different sets of calls differ
ThreadNo == CHOOSE f \in [Threads -> 0..(Cardinality(Threads) - 1)] : \A a, b \in Threads : a # b => f[a] # f[b]
Weight(t, i) == 2 ^ (ThreadNo[t] * Calls + i - 1)
Sum(c, v) == IF c = None THEN v ELSE c + v

VARIABLES prog,     \* prog[t]: the calls of thread t
          cell,
          readers,  \* who holds the lock for reading
          writer,   \* who holds it for writing, if any
          pc, i,    \* where thread t is: step and call
          tmp,      \* what it read
          done,     \* the calls that have taken effect
          got       \* what the last read of a thread replied
vars == <<prog, cell, readers, writer, pc, i, tmp, done, got>>

Init ==
    /\ prog \in [Threads -> [1..Calls -> Kinds]]
    /\ cell = None /\ readers = {} /\ writer = {}
    /\ pc = [t \in Threads |-> "idle"] /\ i = [t \in Threads |-> 1]
    /\ tmp = [t \in Threads |-> None] /\ done = {} /\ got = [t \in Threads |-> None]

Kind(t) == prog[t][i[t]]
Goto(t, s) == pc' = [pc EXCEPT ![t] = s]

Begin(t) ==
    /\ pc[t] = "idle" /\ i[t] <= Calls
    /\ Goto(t, CASE Kind(t) = "read" -> "rlock"
                 [] Kind(t) = "zero" -> "wlock"
                 [] Kind(t) = "add" -> IF Split THEN "rlock" ELSE "wlock")
    /\ UNCHANGED <<prog, cell, readers, writer, i, tmp, done, got>>

RLock(t) ==
    /\ pc[t] = "rlock" /\ writer = {}
    /\ readers' = readers \cup {t}
    /\ Goto(t, "look")
    /\ UNCHANGED <<prog, cell, writer, i, tmp, done, got>>

WLock(t) ==
    /\ pc[t] = "wlock" /\ writer = {} /\ readers = {}
    /\ writer' = {t}
    /\ Goto(t, IF Kind(t) = "add" /\ ~Split THEN "look" ELSE "store")
    /\ UNCHANGED <<prog, cell, readers, i, tmp, done, got>>

\* look at the cell
Look(t) ==
    /\ pc[t] = "look"
    /\ tmp' = [tmp EXCEPT ![t] = cell]
    /\ IF Kind(t) = "read"
       THEN /\ got' = [got EXCEPT ![t] = cell]
            /\ done' = done \cup {<<t, i[t]>>}
            /\ Goto(t, "runlock")
       ELSE /\ UNCHANGED <<got, done>>
            /\ Goto(t, IF Split THEN "runlock" ELSE "store")
    /\ UNCHANGED <<prog, cell, readers, writer, i>>

RUnlock(t) ==
    /\ pc[t] = "runlock"
    /\ readers' = readers \ {t}
    /\ IF Kind(t) = "read"
       THEN Goto(t, "idle") /\ i' = [i EXCEPT ![t] = @ + 1]
       ELSE Goto(t, "wlock") /\ UNCHANGED i
    /\ UNCHANGED <<prog, cell, writer, tmp, done, got>>

Store(t) ==
    /\ pc[t] = "store"
    /\ cell' = IF Kind(t) = "zero" THEN None ELSE Sum(tmp[t], Weight(t, i[t]))
    /\ done' = done \cup {<<t, i[t]>>}
    /\ Goto(t, "wunlock")
    /\ UNCHANGED <<prog, readers, writer, i, tmp, got>>

WUnlock(t) ==
    /\ pc[t] = "wunlock"
    /\ writer' = {}
    /\ i' = [i EXCEPT ![t] = @ + 1]
    /\ Goto(t, "idle")
    /\ UNCHANGED <<prog, cell, readers, tmp, done, got>>

Finished == \A t \in Threads : i[t] = Calls + 1
Step(t) == Begin(t) \/ RLock(t) \/ WLock(t) \/ Look(t) \/ RUnlock(t) \/ Store(t) \/ WUnlock(t)
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Fairness == \A t \in Threads : WF_vars(Begin(t) \/ Look(t) \/ RUnlock(t) \/ Store(t) \/ WUnlock(t)) /\ SF_vars(RLock(t) \/ WLock(t))
Spec == Init /\ [][Next]_vars /\ Fairness

----------------------------------------------------------------------------
\* what the calls amount to
Take(t, n) ==
    /\ <<t, n>> \notin done
    /\ \A m \in 1..(n - 1) : <<t, m>> \in done
    /\ done' = done \cup {<<t, n>>}
    /\ cell' = CASE prog[t][n] = "add" -> Sum(cell, Weight(t, n))
                 [] prog[t][n] = "zero" -> None
                 [] prog[t][n] = "read" -> cell
    /\ got' = IF prog[t][n] = "read" THEN [got EXCEPT ![t] = cell] ELSE got
    /\ UNCHANGED prog
Whole == [][\E t \in Threads : \E n \in 1..Calls : Take(t, n)]_<<prog, cell, done, got>>

\* the instant of a call is between its beginning and its end
Within == \A t \in Threads : \A n \in 1..Calls :
              /\ <<t, n>> \in done => n <= i[t]
              /\ n < i[t] => <<t, n>> \in done
Exclusive == Cardinality(writer) <= 1 /\ (writer # {} => readers = {})
NothingLost ==
    (Finished /\ \A t \in Threads : \A n \in 1..Calls : prog[t][n] # "zero")
    => cell = IF \E t \in Threads, n \in 1..Calls : prog[t][n] = "add"
              THEN LET S[k \in 0..(Cardinality(Threads) * Calls)] ==
                        IF k = 0 THEN 0
                        ELSE LET t == CHOOSE t \in Threads : ThreadNo[t] = (k - 1) \div Calls
                                 n == ((k - 1) % Calls) + 1
                             IN S[k - 1] + (IF prog[t][n] = "add" THEN Weight(t, n) ELSE 0)
                   IN S[Cardinality(Threads) * Calls]
              ELSE None
Ends == <>Finished
=============================================================================
