--------------------------- MODULE StreamSource ---------------------------
(* A stream source handing out readers, used by one client at a time.  After  *)
(* every call everything there is to read has been read ("advance" gives the  *)
(* source one more item, "die" makes its next read fail).  Items of session s *)
(* are s * 100 + 1, s * 100 + 2, ...                                          *)
EXTENDS ReaderOps, TLC

CONSTANTS MaxReaders, MaxSessions, MaxItems, Cfgs, Kws, ReadCalls
\* Cfgs: buffer configurations <<name, maxlen (0: none given), auto>>
\* Kws: options of open_reader <<read size, strict, ignore>>
\* ReadCalls: TRUE when readers also read one by one

VARIABLES
    cfg,        \* the configuration that applies, or will
    made,       \* a buffer was started with it
    sess,       \* per session: [av: items given by the source, on: being delivered,
                \*               opens, closes: calls the source has seen]
    readers,    \* per reader: [s: session, open, cur: cursor, kw]
    op, res     \* the last call and its result

state == <<cfg, made, sess, readers>>
vars == <<cfg, made, sess, readers, op, res>>

\* sets for the configuration files
DfltKws == {<<1, 0, 0>>}
SomeKws == {<<1, 0, 0>>, <<2, 0, 1>>, <<2, 1, 0>>}
SomeCfgs == {<<"win", 2, 1>>, <<"man", 2, 0>>, <<"big", 0, 1>>}

Dflt == <<"dflt", 100, 1>>

Init ==
    /\ cfg = Dflt
    /\ made = FALSE
    /\ sess = <<>>
    /\ readers = <<>>
    /\ op = <<>> /\ res = <<>>

N == Len(sess)
On == N > 0 /\ sess[N].on
OpenReaders == {i \in DOMAIN readers : readers[i].open}

\* what the buffer of a session holds
Full(s) == cfg[3] = 0 /\ cfg[2] > 0 /\ sess[s].av >= cfg[2]
Items(s) ==
    LET n == sess[s].av
        m == IF cfg[2] = 0 THEN n ELSE cfg[2]
        lo == IF cfg[3] = 1 /\ n > m THEN n - m + 1 ELSE 1
        hi == IF cfg[3] = 0 /\ n > m THEN m ELSE n
    IN [i \in 1..(hi - lo + 1) |-> <<s * 100 + lo + i - 1, 0>>]

Do(o, r) == op' = o /\ res' = r

Opened(s) == IF On THEN s ELSE Append(s, [av |-> 0, on |-> TRUE, opens |-> 1, closes |-> 0])
Stopped(s) == IF On THEN [s EXCEPT ![N].on = FALSE, ![N].closes = @ + 1] ELSE s

OpenReader(kw) ==
    /\ Len(readers) < MaxReaders
    /\ On \/ N < MaxSessions
    /\ sess' = Opened(sess)
    /\ made' = TRUE
    /\ readers' = Append(readers, [s |-> Len(sess'), open |-> TRUE, cur |-> <<>>, kw |-> kw])
    /\ UNCHANGED cfg
    /\ Do(<<"open", kw[1], kw[2], kw[3]>>, <<"ok">>)

\* the source fails to open: the caller gets the error, no reader is handed out
OpenFails ==
    /\ ~On /\ N < MaxSessions
    /\ sess' = Append(sess, [av |-> 0, on |-> FALSE, opens |-> 1, closes |-> 0])
    /\ made' = TRUE
    /\ UNCHANGED <<cfg, readers>>
    /\ Do(<<"openfail">>, <<"err">>)

\* closing a reader: the last one stops and closes the source; again: no effect
CloseReader(i) ==
    /\ readers' = [readers EXCEPT ![i].open = FALSE]
    /\ sess' = IF OpenReaders = {i} THEN Stopped(sess) ELSE sess
    /\ UNCHANGED <<cfg, made>>
    /\ Do(<<"close", i>>, <<"ok">>)

Configure(c) ==
    /\ made => \E i \in DOMAIN sess : sess[i].on \/ sess[i].closes > 0   \* not only failed openings
    /\ IF made THEN UNCHANGED cfg /\ Do(<<"configure", c[1], c[2], c[3]>>, <<"err">>)
       ELSE cfg' = c /\ Do(<<"configure", c[1], c[2], c[3]>>, <<"ok">>)
    /\ UNCHANGED <<made, sess, readers>>

Advance ==
    /\ On /\ sess[N].av < MaxItems
    /\ sess' = [sess EXCEPT ![N].av = @ + 1]
    /\ UNCHANGED <<cfg, made, readers>>
    /\ Do(<<"advance">>, <<"ok">>)

Die ==
    /\ On /\ ~Full(N)
    /\ sess' = [sess EXCEPT ![N].on = FALSE, ![N].closes = @ + 1]
    /\ UNCHANGED <<cfg, made, readers>>
    /\ Do(<<"die">>, <<"ok">>)

Result(o, ign) == LET a == Answer(o, ign) IN <<a.t>> \o [i \in DOMAIN a.v |-> Key(a.v[i])]

\* reading with the options the reader was opened with
Read(i) ==
    LET rd == readers[i]
        o == ReadOp(Items(rd.s), rd.cur, rd.kw[1], FALSE, rd.kw[2] = 1) IN
    /\ readers' = [readers EXCEPT ![i].cur = o.cur]
    /\ UNCHANGED <<cfg, made, sess>>
    /\ Do(<<"read", i>>, Result(o, rd.kw[3] = 1))

\* everything not yet seen
ReadAll(i) ==
    LET rd == readers[i]
        o == ReadOp(Items(rd.s), rd.cur, 50, FALSE, FALSE) IN
    /\ readers' = [readers EXCEPT ![i].cur = o.cur]
    /\ UNCHANGED <<cfg, made, sess>>
    /\ Do(<<"readall", i>>, Result(o, TRUE))

Next ==
    \/ \E kw \in Kws : OpenReader(kw)
    \/ OpenFails
    \/ \E i \in DOMAIN readers : CloseReader(i) \/ (readers[i].open /\ ((ReadCalls /\ Read(i)) \/ ReadAll(i)))
    \/ \E c \in Cfgs : Configure(c)
    \/ Advance \/ Die

Obs == <<[i \in DOMAIN sess |-> <<sess[i].opens, sess[i].closes>>],
         [i \in DOMAIN readers |-> IF sess[readers[i].s].on THEN 0 ELSE 1],
         [i \in DOMAIN readers |-> readers[i].s]>>

\* the state, flat
Flat == <<cfg, IF made THEN 1 ELSE 0,
          [i \in DOMAIN sess |-> <<sess[i].av, IF sess[i].on THEN 1 ELSE 0, sess[i].opens, sess[i].closes>>],
          [i \in DOMAIN readers |-> <<readers[i].s, IF readers[i].open THEN 1 ELSE 0, readers[i].cur, readers[i].kw>>]>>
Emit == PrintT(ToString(<<"X", Flat, op', res', Flat', Obs'>>))

-----------------------------------------------------------------------------
\* C17
OpenWhileRead == \* as long as a reader of the current session is open, the source is, unless it failed
    \A i \in OpenReaders : (readers[i].s = N /\ ~sess[N].on) => sess[N].closes = 1
ClosedWithLast == OpenReaders = {} => ~On
ClosedOnce == \A i \in DOMAIN sess : sess[i].opens = 1 /\ sess[i].closes <= 1 /\ (sess[i].on => sess[i].closes = 0)
OneAtATime == \A i \in DOMAIN sess : i < N => ~sess[i].on
NewFromStart == [][\A kw \in Kws : OpenReader(kw) =>
                     /\ readers'[Len(readers')].cur = <<>>
                     /\ ~On => sess'[Len(sess')].av = 0 /\ Len(sess') = N + 1]_vars
=============================================================================
