----------------------------- MODULE RWLockFair -----------------------------
(* The algorithm of the readers-writer lock over fair internal locks (served  *)
(* in the order of asking): how far can waiting readers get ahead of a waiting *)
(* writer?  Justifies the bound in RWLock!Idle1.                               *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS T, K

Locks == {"queue", "noread", "nowrite", "rmutex", "wmutex"}

VARIABLES
    pc, md, rounds,
    q,              \* lock -> threads that hold (the first) or wait for it
    rcount, wcount,
    reg1, over, used

fvars == <<pc, md, rounds, q, rcount, wcount, reg1, over, used>>

Init ==
    /\ pc = [t \in T |-> "out"] /\ md = [t \in T |-> "r"] /\ rounds = [t \in T |-> K]
    /\ q = [k \in Locks |-> <<>>]
    /\ rcount = 0 /\ wcount = 0
    /\ reg1 = {} /\ over = {} /\ used = FALSE

In(s, t) == \E i \in DOMAIN s : s[i] = t

\* label -> <<what, lock, next>>; "ask" puts the thread in the lock's queue, "get" is passed
\* by the first of the queue
Prog(t) ==
    CASE pc[t] = "r1" -> <<"acq", "queue", "r2">>
      [] pc[t] = "r2" -> <<"acq", "noread", "r3">>
      [] pc[t] = "r3" -> <<"acq", "rmutex", "r4">>
      [] pc[t] = "r4" -> <<"r+", "", IF rcount = 0 THEN "r5" ELSE "r6">>
      [] pc[t] = "r5" -> <<"acq", "nowrite", "r6">>
      [] pc[t] = "r6" -> <<"rel", "rmutex", "r7">>
      [] pc[t] = "r7" -> <<"rel", "noread", "r8">>
      [] pc[t] = "r8" -> <<"rel", "queue", "in">>
      [] pc[t] = "x1" -> <<"acq", "rmutex", "x2">>
      [] pc[t] = "x2" -> <<"r-", "", IF rcount = 1 THEN "x3" ELSE "x4">>
      [] pc[t] = "x3" -> <<"rel", "nowrite", "x4">>
      [] pc[t] = "x4" -> <<"rel", "rmutex", "out">>
      [] pc[t] = "w1" -> <<"acq", "wmutex", "w2">>
      [] pc[t] = "w2" -> <<"w+", "", IF wcount = 0 THEN "w3" ELSE "w4">>
      [] pc[t] = "w3" -> <<"acq", "noread", "w4">>
      [] pc[t] = "w4" -> <<"rel", "wmutex", "w5">>
      [] pc[t] = "w5" -> <<"acq", "nowrite", "in">>
      [] pc[t] = "y1" -> <<"rel", "nowrite", "y2">>
      [] pc[t] = "y2" -> <<"acq", "wmutex", "y3">>
      [] pc[t] = "y3" -> <<"w-", "", IF wcount = 1 THEN "y4" ELSE "y5">>
      [] pc[t] = "y4" -> <<"rel", "noread", "y5">>
      [] pc[t] = "y5" -> <<"rel", "wmutex", "out">>
      [] OTHER -> <<"none", "", "">>

\* the holder of a lock need not be the one that took it (noread is passed between writers),
\* so a queue's first entry is whoever took it
Blocked(t) == LET p == Prog(t) IN p[1] = "acq" /\ In(q[p[2]], t) /\ Head(q[p[2]]) # t
CanGo(t) == Prog(t)[1] # "none" /\ ~Blocked(t)

Waiting == {t \in T : pc[t] \in {"r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "w1", "w2", "w3", "w4", "w5"}}

Enter(t) ==
    /\ reg1' = reg1 \ {t}
    /\ over' = IF reg1 \ {t} = {} THEN {} ELSE IF md[t] = "r" THEN over \cup {t} ELSE over

Step(t) ==
    LET p == Prog(t) IN
    /\ CanGo(t)
    /\ UNCHANGED <<md, rounds, used>>
    /\ \/ /\ p[1] = "acq" /\ ~In(q[p[2]], t)         \* ask
          /\ q' = [q EXCEPT ![p[2]] = Append(@, t)]
          /\ UNCHANGED <<pc, rcount, wcount, reg1, over>>
       \/ /\ p[1] = "acq" /\ q[p[2]] # <<>> /\ Head(q[p[2]]) = t
          /\ pc' = [pc EXCEPT ![t] = p[3]]
          /\ UNCHANGED <<q, rcount, wcount>>
          /\ IF p[3] = "in" THEN Enter(t) ELSE UNCHANGED <<reg1, over>>
       \/ /\ p[1] = "rel"
          /\ q' = [q EXCEPT ![p[2]] = Tail(@)]
          /\ pc' = [pc EXCEPT ![t] = p[3]]
          /\ UNCHANGED <<rcount, wcount>>
          /\ IF p[3] = "in" THEN Enter(t) ELSE UNCHANGED <<reg1, over>>
       \/ /\ p[1] \in {"r+", "r-", "w+", "w-"}
          /\ rcount' = rcount + (CASE p[1] = "r+" -> 1 [] p[1] = "r-" -> 0 - 1 [] OTHER -> 0)
          /\ wcount' = wcount + (CASE p[1] = "w+" -> 1 [] p[1] = "w-" -> 0 - 1 [] OTHER -> 0)
          /\ pc' = [pc EXCEPT ![t] = p[3]]
          /\ UNCHANGED <<q, reg1, over>>

Begin(t) ==
    /\ pc[t] = "out" /\ rounds[t] > 0
    /\ rounds' = [rounds EXCEPT ![t] = @ - 1]
    /\ \E m \in {"r", "w"} : md' = [md EXCEPT ![t] = m] /\ pc' = [pc EXCEPT ![t] = IF m = "r" THEN "r1" ELSE "w1"]
    /\ UNCHANGED <<q, rcount, wcount, reg1, over, used>>

Exit(t) ==
    /\ pc[t] = "in"
    /\ pc' = [pc EXCEPT ![t] = IF md[t] = "r" THEN "x1" ELSE "y1"]
    /\ UNCHANGED <<md, rounds, q, rcount, wcount, reg1, over, used>>

\* t stands still in its call and all others wait (or hold)
Observe(t) ==
    /\ ~used /\ md[t] = "r" /\ pc[t] \notin {"out", "in"}
    /\ \A u \in T \ {t} : ~CanGo(u)
    /\ reg1' = {u \in Waiting : md[u] = "w"} \ {t}
    /\ reg1' # {}
    /\ over' = {t}
    /\ used' = TRUE
    /\ UNCHANGED <<pc, md, rounds, q, rcount, wcount>>

Next == \E t \in T : Begin(t) \/ Step(t) \/ Exit(t) \/ Observe(t)

FewOvertake == Cardinality(over) <= 2
=============================================================================
