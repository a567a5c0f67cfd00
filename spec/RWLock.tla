------------------------------- MODULE RWLock -------------------------------
(* A readers-writer lock with priority for writers, as its users see it.      *)
(* Steps are the calls and returns of acquire and release, and "idle": a      *)
(* moment at which nobody can go on unless some holder releases.              *)
EXTENDS Integers, FiniteSets

VARIABLES
    st,     \* thread -> "out" "wait" "in" "leave"
    mode,   \* thread -> "r" or "w": what it asked for
    reg,    \* writers that were found waiting at an idle moment
    reg1,   \* writers that were found waiting at a moment all but one thread were idle
    over    \* readers let in since then while one of those writers waits

lvars == <<st, mode, reg, reg1, over>>

Threads == DOMAIN st

Waiting(m) == {t \in Threads : st[t] = "wait" /\ mode[t] = m}
Holding(m) == {t \in Threads : st[t] = "in" /\ mode[t] = m}

LockInit(T) ==
    /\ st = [t \in T |-> "out"]
    /\ mode = [t \in T |-> "r"]
    /\ reg = {}
    /\ reg1 = {}
    /\ over = {}

Ask(t, m) ==
    /\ st[t] = "out"
    /\ st' = [st EXCEPT ![t] = "wait"]
    /\ mode' = [mode EXCEPT ![t] = m]
    /\ UNCHANGED <<reg, reg1, over>>

MayEnter(t) ==
    IF mode[t] = "w" THEN Holding("r") \cup Holding("w") = {}
    ELSE Holding("w") = {} /\ reg = {} /\ (reg1 = {} \/ t \in over \/ Cardinality(over) <= 1)

Grant(t) ==
    /\ st[t] = "wait"
    /\ MayEnter(t)
    /\ st' = [st EXCEPT ![t] = "in"]
    /\ reg' = reg \ {t}
    /\ reg1' = reg1 \ {t}
    /\ over' = IF reg1' = {} THEN {} ELSE IF mode[t] = "r" THEN over \cup {t} ELSE over
    /\ UNCHANGED mode

Leave(t) ==
    /\ st[t] = "in"
    /\ st' = [st EXCEPT ![t] = "leave"]
    /\ UNCHANGED <<mode, reg, reg1, over>>

Left(t) ==
    /\ st[t] = "leave"
    /\ st' = [st EXCEPT ![t] = "out"]
    /\ UNCHANGED <<mode, reg, reg1, over>>

(* Nobody can go on: then every wait has a reason, and releases never wait. *)
Justified ==
    /\ \A t \in Threads : st[t] # "leave"
    /\ Waiting("r") # {} => Holding("w") \cup Waiting("w") # {}
    /\ Waiting("w") # {} => Holding("w") \cup Holding("r") # {}

Idle ==
    /\ Justified
    /\ reg' = Waiting("w")
    /\ reg1' = {} /\ over' = {}
    /\ UNCHANGED <<st, mode>>

(* With fair locks inside: all threads but t, a reader that stands still      *)
(* somewhere in its call, cannot go on.  The writers that wait now go first,  *)
(* but for t itself and one reader that t may have held up inside the         *)
(* entrance (RWLockFair).                                                      *)
Idle1(t) ==
    /\ reg1' = IF mode[t] = "r" /\ st[t] \in {"wait", "leave"} THEN Waiting("w") ELSE {}
    /\ over' = IF reg1' = {} THEN {} ELSE {t}
    /\ UNCHANGED <<st, mode, reg>>

LockNext == Idle \/ \E t \in Threads : Idle1(t) \/ (\E m \in {"r", "w"} : Ask(t, m)) \/ Grant(t) \/ Leave(t) \/ Left(t)

Exclusive ==
    /\ Cardinality(Holding("w")) <= 1
    /\ Holding("w") # {} => Holding("r") = {}
=============================================================================
