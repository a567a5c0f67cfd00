---------------------------- MODULE SharedSource ----------------------------
(* A stream source whose readers are opened and closed by several clients at  *)
(* the same time.  Every call takes effect in one silent step between its     *)
(* call and its return, except opening a reader of a source that is not being *)
(* read: that spans the calls the source gets.                                *)
EXTENDS Integers, Sequences, FiniteSets

NoClient == -1

VARIABLES
    src,        \* the source: "closed" "opening" "open" "closing"
    sess,       \* per session: [on, fail, given]
    readers,    \* handed out (a function): [s, open]
    starter,    \* the client that is starting a session
    pend        \* calls under way

shvars == <<src, sess, readers, starter, pend>>

SharedInit == src = "closed" /\ sess = <<>> /\ readers = <<>> /\ starter = NoClient /\ pend = <<>>

N == Len(sess)
On == N > 0 /\ sess[N].on
OpenReaders == {i \in DOMAIN readers : readers[i].open}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
R(t, v) == [t |-> t, v |-> v]
Done(c, r) == pend' = [pend EXCEPT ![c].ph = "done", ![c].res = r]

Call(c, op) ==
    /\ c \notin DOMAIN pend
    /\ pend' = Put(pend, c, [op |-> op, ph |-> "called", res |-> R("", <<>>)])
    /\ UNCHANGED <<src, sess, readers, starter>>

Ret(c, r) ==
    /\ c \in DOMAIN pend /\ pend[c].ph = "done" /\ pend[c].res = r
    /\ pend' = Del(pend, c)
    /\ UNCHANGED <<src, sess, readers, starter>>

Called(c, name) == c \in DOMAIN pend /\ pend[c].ph = "called" /\ pend[c].op.op = name
HandOut(c) ==
    /\ readers' = Put(readers, pend[c].op.r, [s |-> N, open |-> TRUE])
    /\ Done(c, R("ok", <<>>))

\* a reader of the session that is going on
Join(c) ==
    /\ Called(c, "open") /\ starter = NoClient /\ On
    /\ HandOut(c)
    /\ UNCHANGED <<src, sess, starter>>

\* nothing is being read: start
Begin(c) ==
    /\ Called(c, "open") /\ starter = NoClient /\ ~On
    /\ starter' = c
    /\ pend' = [pend EXCEPT ![c].ph = "begun"]
    /\ UNCHANGED <<src, sess, readers>>

SrcOpen ==
    /\ src = "closed" /\ starter # NoClient /\ pend[starter].ph = "begun"
    /\ src' = "opening"
    /\ pend' = [pend EXCEPT ![starter].ph = "opening"]
    /\ UNCHANGED <<sess, readers, starter>>

SrcOpened(ok) ==
    /\ src = "opening"
    /\ sess' = Append(sess, [on |-> ok, fail |-> ~ok, given |-> 0])
    /\ IF ok THEN /\ src' = "open"
                  /\ pend' = [pend EXCEPT ![starter].ph = "opened"]
                  /\ UNCHANGED starter
       ELSE /\ src' = "closed"
            /\ Done(starter, R("err", <<>>))
            /\ starter' = NoClient
    /\ UNCHANGED readers

Started(c) ==
    /\ c = starter /\ pend[c].ph = "opened"
    /\ HandOut(c)
    /\ starter' = NoClient
    /\ UNCHANGED <<src, sess>>

\* closing a reader: the last one ends the session; closing it again has no effect
CloseReader(c) ==
    /\ Called(c, "close")
    /\ LET r == pend[c].op.r IN
       /\ readers' = [readers EXCEPT ![r].open = FALSE]
       /\ sess' = IF OpenReaders = {r} /\ starter = NoClient /\ On THEN [sess EXCEPT ![N].on = FALSE] ELSE sess
    /\ Done(c, R("ok", <<>>))
    /\ UNCHANGED <<src, starter>>

Given ==
    /\ src = "open"
    /\ sess' = [sess EXCEPT ![N].given = @ + 1]
    /\ UNCHANGED <<src, readers, starter, pend>>

ReadFails ==
    /\ src = "open" /\ ~sess[N].fail
    /\ sess' = [sess EXCEPT ![N].fail = TRUE]
    /\ UNCHANGED <<src, readers, starter, pend>>

FailStop ==     \* silent
    /\ On /\ sess[N].fail
    /\ sess' = [sess EXCEPT ![N].on = FALSE]
    /\ UNCHANGED <<src, readers, starter, pend>>

SrcClose ==
    /\ src = "open" /\ ~On
    /\ src' = "closing"
    /\ UNCHANGED <<sess, readers, starter, pend>>

SrcClosed ==
    /\ src = "closing"
    /\ src' = "closed"
    /\ UNCHANGED <<sess, readers, starter, pend>>

\* what a reader says about itself
Ask(c) ==
    /\ Called(c, "stopped") \/ Called(c, "info") \/ Called(c, "see")
    /\ LET s == readers[pend[c].op.r].s IN
       CASE pend[c].op.op = "stopped" -> Done(c, R("bool", <<IF sess[s].on THEN 0 ELSE 1>>))
         [] pend[c].op.op = "info" -> Done(c, R("info", <<s>>))
         \* everything buffered; the newest item may be on its way
         [] OTHER -> \E n \in {sess[s].given - 1, sess[s].given} :
                        n >= 0 /\ Done(c, R("saw", IF n = 0 THEN <<>> ELSE <<s, n>>))
    /\ UNCHANGED <<src, sess, readers, starter>>

Silent == FailStop \/ \E c \in DOMAIN pend : Join(c) \/ Begin(c) \/ Started(c) \/ CloseReader(c) \/ Ask(c)

\* whenever enough time has passed
Quiet ==
    /\ pend = <<>>
    /\ src = (IF On THEN "open" ELSE "closed")
    /\ On => ~sess[N].fail

-----------------------------------------------------------------------------
\* C17
OpenWhileRead == \A i \in OpenReaders : sess[readers[i].s].on \/ sess[readers[i].s].fail
ClosedWithLast == (OpenReaders = {} /\ starter = NoClient) => ~On
OneSession == \A i \in 1..N : i < N => ~sess[i].on
=============================================================================
