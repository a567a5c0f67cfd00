---------------------------- MODULE SharedTrace ----------------------------
(* Checks traces of a stream source used by several clients.                  *)
EXTENDS SharedSource, TLC, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES)
Single == IOEnv.SINGLE = "1"
VARIABLES tid, l
tvars == <<shvars, tid, l>>

Init == tid \in 1..Len(Traces) /\ l = 1 /\ SharedInit

Next ==
    /\ l <= Len(Traces[tid].ev)
    /\ \/ Silent /\ l' = l
       \/ /\ l' = l + 1
          /\ LET e == Traces[tid].ev[l] IN
             CASE e.k = "call"   -> Call(e.c, e)
               [] e.k = "ret"    -> Ret(e.c, [t |-> e.t, v |-> e.v])
               [] e.k = "open"   -> SrcOpen
               [] e.k = "opened" -> SrcOpened(e.ok = 1)
               [] e.k = "given"  -> Given
               [] e.k = "fails"  -> ReadFails
               [] e.k = "close"  -> SrcClose
               [] e.k = "closed" -> SrcClosed
               [] e.k = "q"      -> Quiet /\ UNCHANGED shvars
               [] e.k = "end"    -> pend = <<>> /\ UNCHANGED shvars
               [] OTHER          -> FALSE
    /\ UNCHANGED tid

Inv == OpenWhileRead /\ ClosedWithLast /\ OneSession

Report ==
    /\ l > Len(Traces[tid].ev) => PrintT(<<"ACCEPTED", tid>>)
    /\ Single => (IF l > TLCGet(7) THEN TLCSet(7, l) /\ PrintT(<<"REACHED", l>>) ELSE TRUE)
ASSUME TLCSet(7, 0)
=============================================================================
