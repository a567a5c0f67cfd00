------------------------------ MODULE MCShared ------------------------------
(* All behaviours of SharedSource for a few clients, readers and sessions.    *)
EXTENDS SharedSource

CONSTANTS Clients, MaxReaders, MaxSessions, MaxGiven

Ops(n) == {[op |-> "open", r |-> n]} \cup {[op |-> o, r |-> i] : o \in {"close", "stopped", "see"}, i \in DOMAIN readers}
Promised == {pend[c].op.r : c \in {x \in DOMAIN pend : pend[x].op.op = "open"}}
NewId == CHOOSE i \in 1..(MaxReaders + 1) : i \notin DOMAIN readers \cup Promised

MCNext ==
    \/ Silent
    \/ \E c \in Clients : \E op \in Ops(NewId) :
         /\ op.op = "open" => op.r <= MaxReaders
         /\ op.op = "close" => \A d \in DOMAIN pend : pend[d].op.r # op.r
         /\ Call(c, op)
    \/ \E c \in DOMAIN pend : Ret(c, pend[c].res)
    \/ (N < MaxSessions /\ SrcOpen)
    \/ SrcOpened(TRUE) \/ SrcOpened(FALSE)
    \/ (N > 0 /\ sess[N].given < MaxGiven /\ Given)
    \/ ReadFails \/ SrcClose \/ SrcClosed

MCSpec == SharedInit /\ [][MCNext]_shvars
=============================================================================
