---------------------------- MODULE RWLockTrace ----------------------------
(* Checks traces of real lock use against RWLock.                            *)
EXTENDS RWLock, Sequences, TLC, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES)
Single == IOEnv.SINGLE = "1"
VARIABLES tid, l
tvars == <<lvars, tid, l>>

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ LockInit(1..Traces[tid].n)

Next ==
    /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l] IN
       CASE e.k = "ask"   -> Ask(e.c, e.m)
         [] e.k = "got"   -> Grant(e.c)
         [] e.k = "leave" -> Leave(e.c)
         [] e.k = "left"  -> Left(e.c)
         [] e.k = "idle"  -> Idle
         [] e.k = "idle1" -> Idle1(e.c)
         [] e.k = "end"   -> (\A t \in Threads : st[t] = "out") /\ UNCHANGED lvars
         [] OTHER         -> FALSE
    /\ l' = l + 1
    /\ UNCHANGED tid

Report ==
    /\ l > Len(Traces[tid].ev) => PrintT(<<"ACCEPTED", tid>>)
    /\ Single => (IF l > TLCGet(7) THEN TLCSet(7, l) /\ PrintT(<<"REACHED", l>>) ELSE TRUE)
ASSUME TLCSet(7, 0)
=============================================================================
