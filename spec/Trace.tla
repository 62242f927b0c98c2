------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks a log of calls made on the real library against RustLight.Exec.   *)
(* Each line is {"c": call, "r": reply}.  A reply that differs is reported  *)
(* (MISMATCH line) and the rest of that program, up to the next "reset", is *)
(* skipped, because the state is no longer known.                          *)
(***************************************************************************)
EXTENDS RustLight, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

\* does reply r to call c do for what the specification calls for?
Agree(c, want, r) == IF c.op = "mem" THEN AgreeMem(want, r) ELSE want = r

VARIABLES l, S, lost
vars == <<l, S, lost>>

Init == l = 1 /\ S = Empty /\ lost = FALSE

Next ==
    /\ l <= Len(Log)
    /\ l' = l + 1
    /\ LET e == Log[l] IN
       IF lost /\ e.c.op # "reset" THEN UNCHANGED <<S, lost>>
       ELSE LET x == Exec(S, e.c)
                ok == Agree(e.c, x.r, e.r)
            IN /\ S' = x.S
               /\ lost' = ~ok
               /\ IF ok THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(x.r))

Spec == Init /\ [][Next]_vars

\* the library's own invariants, in every state of every observed run
StateOk == NodesOk(S)

\* the whole log was read
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
