----------------------------- MODULE RWLockImpl -----------------------------
(* The algorithm of stream2py.utility.reader_writer_lock, one primitive lock  *)
(* operation (or counter update) per step, for the threads of T, each going   *)
(* round K times.  Checked to refine RWLock.                                  *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS T, K

VARIABLES
    pc, md, rounds,
    queue, noread, nowrite, rmutex, wmutex,   \* the locks: owner (0 is free)
    rcount, wcount,                           \* the light switches' counters
    reg

ivars == <<pc, md, rounds, queue, noread, nowrite, rmutex, wmutex, rcount, wcount, reg>>

Init ==
    /\ pc = [t \in T |-> "out"] /\ md = [t \in T |-> "r"] /\ rounds = [t \in T |-> K]
    /\ queue = 0 /\ noread = 0 /\ nowrite = 0 /\ rmutex = 0 /\ wmutex = 0
    /\ rcount = 0 /\ wcount = 0 /\ reg = {}

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Same(vs) == UNCHANGED vs

Begin(t) ==
    /\ pc[t] = "out" /\ (rounds[t] > 0 \/ K = 0)      \* K = 0: forever
    /\ rounds' = IF K = 0 THEN rounds ELSE [rounds EXCEPT ![t] = @ - 1]
    /\ \E m \in {"r", "w"} : md' = [md EXCEPT ![t] = m] /\ Go(t, IF m = "r" THEN "r1" ELSE "w1")
    /\ Same(<<queue, noread, nowrite, rmutex, wmutex, rcount, wcount>>)

L(t, from, to, free, acq) ==   \* helper: a step at a label
    pc[t] = from /\ free /\ acq /\ Go(t, to)

RA(t) ==
    \/ L(t, "r1", "r2", queue = 0, queue' = t) /\ Same(<<noread, nowrite, rmutex, wmutex, rcount, wcount>>)
    \/ L(t, "r2", "r3", noread = 0, noread' = t) /\ Same(<<queue, nowrite, rmutex, wmutex, rcount, wcount>>)
    \/ L(t, "r3", "r4", rmutex = 0, rmutex' = t) /\ Same(<<queue, noread, nowrite, wmutex, rcount, wcount>>)
    \/ L(t, "r4", IF rcount = 0 THEN "r5" ELSE "r6", TRUE, rcount' = rcount + 1) /\ Same(<<queue, noread, nowrite, rmutex, wmutex, wcount>>)
    \/ L(t, "r5", "r6", nowrite = 0, nowrite' = t) /\ Same(<<queue, noread, rmutex, wmutex, rcount, wcount>>)
    \/ L(t, "r6", "r7", TRUE, rmutex' = 0) /\ Same(<<queue, noread, nowrite, wmutex, rcount, wcount>>)
    \/ L(t, "r7", "r8", TRUE, noread' = 0) /\ Same(<<queue, nowrite, rmutex, wmutex, rcount, wcount>>)
    \/ L(t, "r8", "in", TRUE, queue' = 0) /\ Same(<<noread, nowrite, rmutex, wmutex, rcount, wcount>>)

RR(t) ==
    \/ L(t, "x1", "x2", rmutex = 0, rmutex' = t) /\ Same(<<queue, noread, nowrite, wmutex, rcount, wcount>>)
    \/ L(t, "x2", IF rcount = 1 THEN "x3" ELSE "x4", TRUE, rcount' = rcount - 1) /\ Same(<<queue, noread, nowrite, rmutex, wmutex, wcount>>)
    \/ L(t, "x3", "x4", TRUE, nowrite' = 0) /\ Same(<<queue, noread, rmutex, wmutex, rcount, wcount>>)
    \/ L(t, "x4", "done", TRUE, rmutex' = 0) /\ Same(<<queue, noread, nowrite, wmutex, rcount, wcount>>)

WA(t) ==
    \/ L(t, "w1", "w2", wmutex = 0, wmutex' = t) /\ Same(<<queue, noread, nowrite, rmutex, rcount, wcount>>)
    \/ L(t, "w2", IF wcount = 0 THEN "w3" ELSE "w4", TRUE, wcount' = wcount + 1) /\ Same(<<queue, noread, nowrite, rmutex, wmutex, rcount>>)
    \/ L(t, "w3", "w4", noread = 0, noread' = t) /\ Same(<<queue, nowrite, rmutex, wmutex, rcount, wcount>>)
    \/ L(t, "w4", "w5", TRUE, wmutex' = 0) /\ Same(<<queue, noread, nowrite, rmutex, rcount, wcount>>)
    \/ L(t, "w5", "in", nowrite = 0, nowrite' = t) /\ Same(<<queue, noread, rmutex, wmutex, rcount, wcount>>)

WR(t) ==
    \/ L(t, "y1", "y2", TRUE, nowrite' = 0) /\ Same(<<queue, noread, rmutex, wmutex, rcount, wcount>>)
    \/ L(t, "y2", "y3", wmutex = 0, wmutex' = t) /\ Same(<<queue, noread, nowrite, rmutex, rcount, wcount>>)
    \/ L(t, "y3", IF wcount = 1 THEN "y4" ELSE "y5", TRUE, wcount' = wcount - 1) /\ Same(<<queue, noread, nowrite, rmutex, wmutex, rcount>>)
    \/ L(t, "y4", "y5", TRUE, noread' = 0) /\ Same(<<queue, nowrite, rmutex, wmutex, rcount, wcount>>)
    \/ L(t, "y5", "done", TRUE, wmutex' = 0) /\ Same(<<queue, noread, nowrite, rmutex, rcount, wcount>>)

Exit(t) ==
    /\ pc[t] = "in" /\ Go(t, IF md[t] = "r" THEN "x1" ELSE "y1")
    /\ Same(<<queue, noread, nowrite, rmutex, wmutex, rcount, wcount>>)

End(t) ==
    /\ pc[t] = "done" /\ Go(t, "out")
    /\ Same(<<queue, noread, nowrite, rmutex, wmutex, rcount, wcount>>)

\* steps inside a call
Inner(t) == RA(t) \/ RR(t) \/ WA(t) \/ WR(t) \/ End(t)

AbsState(p) == CASE p \in {"out", "in"} -> p
                 [] p \in {"x1", "x2", "x3", "x4", "y1", "y2", "y3", "y4", "y5", "done"} -> "leave"
                 [] OTHER -> "wait"
WaitingW(p, m) == {t \in T : AbsState(p[t]) = "wait" /\ m[t] = "w"}

\* can some call go on without a holder releasing?
CanGo(t) ==
    CASE pc[t] = "r1" -> queue = 0
      [] pc[t] = "r2" -> noread = 0
      [] pc[t] \in {"r3", "x1"} -> rmutex = 0
      [] pc[t] = "r5" -> nowrite = 0
      [] pc[t] \in {"w1", "y2"} -> wmutex = 0
      [] pc[t] = "w3" -> noread = 0
      [] pc[t] = "w5" -> nowrite = 0
      [] pc[t] \in {"out", "in"} -> FALSE
      [] OTHER -> TRUE
Quiescent == \A t \in T : ~CanGo(t)

Observe == Quiescent /\ reg' = WaitingW(pc, md)
           /\ Same(<<pc, md, rounds, queue, noread, nowrite, rmutex, wmutex, rcount, wcount>>)

Next ==
    \/ Observe
    \/ \E t \in T :
         \/ Begin(t) /\ UNCHANGED reg
         \/ (Inner(t) \/ Exit(t)) /\ UNCHANGED rounds /\ UNCHANGED md
            /\ reg' = IF pc'[t] = "in" THEN reg \ {t} ELSE reg

Spec == Init /\ [][Next]_ivars
Act(t) == (Inner(t) \/ Exit(t)) /\ UNCHANGED <<rounds, md>> /\ reg' = IF pc'[t] = "in" THEN reg \ {t} ELSE reg
FairSpec == Spec /\ \A t \in T : SF_ivars(Act(t))

Abs == INSTANCE RWLock WITH st <- [t \in T |-> AbsState(pc[t])], mode <- md, reg1 <- {}, over <- {}

\* every step of the algorithm is a step of the abstract lock (or nothing to see)
Refines == Abs!LockInit(T) /\ [][Abs!LockNext]_<<[t \in T |-> AbsState(pc[t])], md, reg>>
Exclusive == Abs!Exclusive
Reasons == Quiescent => Abs!Justified
EveryoneEnters == \A t \in T : (AbsState(pc[t]) = "wait") ~> (AbsState(pc[t]) = "in")
WritersEnter == \A t \in T : (AbsState(pc[t]) = "wait" /\ md[t] = "w") ~> (AbsState(pc[t]) = "in")
Done == \A t \in T : pc[t] = "out" /\ rounds[t] = 0
NoDeadlock == (~ENABLED Next \/ Quiescent) => (Done \/ \E t \in T : pc[t] = "in" \/ rounds[t] > 0)
=============================================================================
