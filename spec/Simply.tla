------------------------------ MODULE Simply ------------------------------
(* The all-in-one helper: a stream made of callbacks, inside one with block.  *)
(* After every step everything there is to read has been read.  An item is    *)
(* <<index, value>>; the index is part of it only when enumeration is on.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Values, MaxItems, MaxSessions, Opts
\* Opts: set of <<enumerate, keyed, maxlen (0: none), auto, callbacks given>>
\* callbacks given: 1 open and close, 2 open only, 3 close only, 4 neither

VARIABLES
    opt, phase,     \* phase: "new" "in" "left"
    sess,           \* per session: [buf, n: items given, on, opens, closes]
    op, res

state == <<opt, phase, sess>>
vars == <<opt, phase, sess, op, res>>

HasOpen == opt[5] \in {1, 2}
HasClose == opt[5] \in {1, 3}
B(b) == IF b THEN 1 ELSE 0

Init ==
    /\ opt \in Opts
    /\ phase = "new"
    /\ sess = <<>>
    /\ op = <<>> /\ res = <<>>

N == Len(sess)
On == N > 0 /\ sess[N].on
Do(o, r) == op' = o /\ res' = r /\ UNCHANGED opt

New == [buf |-> <<>>, n |-> 0, on |-> TRUE, opens |-> B(HasOpen), closes |-> 0]
Ended(s) == [s EXCEPT !.on = FALSE, !.closes = B(HasClose)]
End == sess' = [sess EXCEPT ![N] = Ended(@)]

Enter ==
    /\ phase = "new" /\ phase' = "in"
    /\ sess' = <<New>>
    /\ Do(<<"enter">>, <<"ok">>)

\* the open callback raises: the block is not entered, nothing was opened
EnterFails ==
    /\ phase = "new" /\ HasOpen /\ phase' = "left"
    /\ sess' = <<[New EXCEPT !.on = FALSE]>>
    /\ Do(<<"enterfail">>, <<"raised">>)

\* the info callback raises: what was opened is closed
InfoFails ==
    /\ phase = "new" /\ phase' = "left"
    /\ sess' = <<Ended(New)>>
    /\ Do(<<"infofail">>, <<"raised">>)

Key(x) == IF opt[2] = 1 THEN x[2] ELSE IF opt[1] = 1 THEN x[1] ELSE x[2]
Full == opt[4] = 0 /\ opt[3] > 0 /\ Len(sess[N].buf) >= opt[3]
Cut(s) == IF opt[3] = 0 \/ Len(s) <= opt[3] THEN s ELSE SubSeq(s, Len(s) - opt[3] + 1, Len(s))

\* the read callback gives a value
Give(v) ==
    /\ On /\ ~Full /\ sess[N].n < MaxItems
    /\ LET s == sess[N]
           x == <<s.n, v>>
       IN IF s.buf # <<>> /\ Key(x) <= Key(s.buf[Len(s.buf)])
          THEN sess' = [sess EXCEPT ![N] = Ended([s EXCEPT !.n = @ + 1])]    \* the key does not advance
          ELSE sess' = [sess EXCEPT ![N].buf = Cut(Append(@, x)), ![N].n = @ + 1]
    /\ UNCHANGED phase
    /\ Do(<<"give", v>>, <<"ok">>)

\* the read callback gives None, again and again
GiveNone ==
    /\ On /\ UNCHANGED <<phase, sess>>
    /\ Do(<<"none">>, <<"ok">>)

ReadRaises ==
    /\ On /\ ~Full /\ End
    /\ UNCHANGED phase
    /\ Do(<<"die">>, <<"ok">>)

Drop(k) ==
    /\ opt[4] = 0 /\ On /\ Len(sess[N].buf) >= k
    /\ sess' = [sess EXCEPT ![N].buf = SubSeq(@, k + 1, Len(@))]
    /\ UNCHANGED phase
    /\ Do(<<"drop", k>>, <<"ok">>)

Stop ==
    /\ phase = "in"
    /\ IF On THEN End ELSE UNCHANGED sess
    /\ UNCHANGED phase
    /\ Do(<<"stop">>, <<"ok">>)

Restart ==
    /\ phase = "in" /\ N < MaxSessions
    /\ sess' = Append([i \in DOMAIN sess |-> LET e == IF sess[i].on THEN Ended(sess[i]) ELSE sess[i]
                                             IN [e EXCEPT !.buf = <<>>, !.n = 0]], New)     \* what was left of it is not looked at
    /\ UNCHANGED phase
    /\ Do(<<"start">>, <<"ok">>)

Leave(how) ==
    /\ phase = "in" /\ phase' = "left"
    /\ IF On THEN End ELSE UNCHANGED sess
    /\ Do(<<"leave", how>>, IF how = "exc" THEN <<"raised">> ELSE <<"ok">>)

Next ==
    \/ Enter \/ EnterFails \/ InfoFails
    \/ \E v \in Values : Give(v)
    \/ GiveNone \/ ReadRaises \/ Stop \/ Restart
    \/ \E k \in 1..2 : Drop(k)
    \/ \E how \in {"ok", "exc"} : Leave(how)

Flat == <<opt, phase, [i \in DOMAIN sess |-> <<sess[i].buf, sess[i].n, B(sess[i].on), sess[i].opens, sess[i].closes>>]>>
Emit == PrintT(ToString(<<"X", Flat, op', res', Flat'>>))

\* sets for the configuration files
QuickOpts == {<<e, k, m, a, c>> : e \in {0, 1}, k \in {0, 1}, m \in {0, 2}, a \in {0, 1}, c \in {1}}
             \cup {<<e, 0, 2, 1, c>> : e \in {0, 1}, c \in 2..4}
DeepOpts == {<<e, k, m, a, c>> : e \in {0, 1}, k \in {0, 1}, m \in {0, 2, 3}, a \in {0, 1}, c \in 1..4}
-----------------------------------------------------------------------------
\* C19
ClosedOnce == \A i \in DOMAIN sess : /\ sess[i].opens <= 1 /\ sess[i].closes <= 1
                                     /\ (sess[i].on => sess[i].closes = 0)
                                     /\ (i < N => ~sess[i].on)
LeftMeansOff == phase = "left" => ~On
Indices == \A i \in DOMAIN sess : \A j \in DOMAIN sess[i].buf :
    \/ j > 1 /\ sess[i].buf[j][1] = sess[i].buf[j - 1][1] + 1
    \/ j = 1 /\ (opt[3] = 0 /\ opt[4] = 1 => sess[i].buf[j][1] = 0)
=============================================================================
