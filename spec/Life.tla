-------------------------------- MODULE Life --------------------------------
(* The life of a stream buffer used by one client, call by call: after every  *)
(* call everything has happened that will happen without another one.         *)
(* "advance" gives the source one more item, "die" ends the session from the  *)
(* source's side.  Items of session s have the keys s * 100 + 1, + 2, ...     *)
EXTENDS ReaderOps, TLC

CONSTANTS MaxSessions, MaxItems, Slots, Cfgs, Fails, Ops
\* Slots: the client's readers; Cfgs: <<maxlen (0: none), auto>>
\* Fails: how a start may fail, "open" or "info"; Ops: the calls made

VARIABLES
    cfg,
    sess,       \* per start: [av: items the source had for it, lo: of them dropped on demand,
                \*             on, dead: the start failed, opens, closes: calls the source got]
    cur,        \* the session new readers belong to, 0: none
    hid,        \* cursor of next(stream_buffer)
    rd,         \* slot -> [s: session or 0, c: cursor]
    op, res

state == <<cfg, sess, cur, hid, rd>>
vars == <<cfg, sess, cur, hid, rd, op, res>>

Small == {<<2, 1>>}
Both == {<<2, 1>>, <<2, 0>>}
Three == {<<2, 1>>, <<1, 0>>, <<0, 1>>}

N == Len(sess)
On == N > 0 /\ sess[N].on
Auto == cfg[2] = 1
M == cfg[1]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* what the buffer of a session holds: numbers lo + 1 .. hi of what the source had
Lo(x) == IF Auto /\ M > 0 THEN Max(x.av - M, 0) ELSE x.lo
Hi(x) == IF ~Auto /\ M > 0 THEN Min(x.av, x.hi) ELSE x.av
Items(s) == [i \in 1..(Hi(sess[s]) - Lo(sess[s])) |-> <<s * 100 + Lo(sess[s]) + i, 0>>]
Full(s) == ~Auto /\ M > 0 /\ Hi(sess[s]) - Lo(sess[s]) >= M

Init ==
    /\ cfg \in Cfgs
    /\ sess = <<>> /\ cur = 0 /\ hid = <<>>
    /\ rd = [i \in Slots |-> [s |-> 0, c |-> <<>>]]
    /\ op = <<>> /\ res = <<>>

Do(o, r) == op' = o /\ res' = r /\ UNCHANGED cfg
Keys(v) == [i \in DOMAIN v |-> Key(v[i])]
Result(o, ign) == LET a == Answer(o, ign) IN <<a.t>> \o Keys(a.v)

Ended(s) == IF N > 0 /\ s[N].on THEN [s EXCEPT ![N].on = FALSE, ![N].closes = @ + 1] ELSE s
New(how) == [av |-> 0, lo |-> 0, hi |-> M, on |-> how = "ok", dead |-> how # "ok",
             opens |-> 1, closes |-> IF how = "info" THEN 1 ELSE 0]

Start(how) ==
    /\ N < MaxSessions
    /\ sess' = Append(Ended(sess), New(how))
    /\ cur' = IF how = "ok" THEN N + 1 ELSE 0
    /\ hid' = <<>>
    /\ UNCHANGED rd
    /\ Do(<<"start", how>>, IF how = "ok" THEN <<"ok">> ELSE <<"err">>)

Stop ==
    /\ N > 0
    /\ sess' = Ended(sess)
    /\ UNCHANGED <<cur, hid, rd>>
    /\ Do(<<"stop">>, <<"ok">>)

Advance ==
    /\ On /\ sess[N].av < MaxItems
    /\ sess' = [sess EXCEPT ![N].av = @ + 1]
    /\ UNCHANGED <<cur, hid, rd>>
    /\ Do(<<"advance">>, <<"ok">>)

Die ==
    /\ On /\ ~Full(N)
    /\ sess' = Ended(sess)
    /\ UNCHANGED <<cur, hid, rd>>
    /\ Do(<<"die", IF Items(N) = <<>> THEN 0 ELSE 1>>, <<"ok">>)

Ask(o, r) == UNCHANGED <<sess, cur, hid, rd>> /\ Do(o, r)

IsRun == Ask(<<"isrun">>, <<IF On THEN 1 ELSE 0>>)
SInfo == Ask(<<"sinfo">>, <<cur>>)

Mk(i) ==
    IF cur = 0 THEN Ask(<<"mk", i>>, <<"err">>)
    ELSE /\ rd' = [rd EXCEPT ![i] = [s |-> cur, c |-> <<>>]]
         /\ UNCHANGED <<sess, cur, hid>>
         /\ Do(<<"mk", i>>, <<"ok">>)

Attach(i) ==
    /\ rd[i].s > 0
    /\ IF cur = 0 THEN Ask(<<"attach", i>>, <<"err">>)
       ELSE /\ rd' = [rd EXCEPT ![i].s = cur]
            /\ UNCHANGED <<sess, cur, hid>>
            /\ Do(<<"attach", i>>, <<"ok">>)

Reads(i, o, r, c) ==
    /\ rd' = [rd EXCEPT ![i].c = c]
    /\ UNCHANGED <<sess, cur, hid>>
    /\ Do(o, r)

Read(i) == LET o == ReadOp(Items(rd[i].s), rd[i].c, 1, FALSE, FALSE) IN
    Reads(i, <<"read", i>>, Result(o, FALSE), o.cur)

Next1(items, c, s) ==       \* next(...)
    LET o == ReadOp(items, c, 1, FALSE, FALSE) IN
    IF o.t = "sig" THEN (IF sess[s].on THEN <<"none">> ELSE <<"stop">>) ELSE Result(o, FALSE)

NextOf(i) == Reads(i, <<"next", i>>, Next1(Items(rd[i].s), rd[i].c, rd[i].s),
                   ReadOp(Items(rd[i].s), rd[i].c, 1, FALSE, FALSE).cur)

\* a blocking read, when it does not wait
Block(i) == LET o == ReadOp(Items(rd[i].s), rd[i].c, 2, FALSE, FALSE) IN
    /\ o.t = "sig" => ~sess[rd[i].s].on
    /\ Reads(i, <<"block", i>>, Result(o, TRUE), o.cur)

TailNew(i) == LET o == TailOp(Items(rd[i].s), rd[i].c, FALSE, TRUE) IN
    Reads(i, <<"tail", i>>, Result(o, TRUE), o.cur)

\* iterating until the end of a stream that has ended
IterAll(i) == LET nw == Newer(Items(rd[i].s), rd[i].c) IN
    /\ ~sess[rd[i].s].on
    /\ Reads(i, <<"iter", i>>, <<"list">> \o Keys(nw), IF nw = <<>> THEN rd[i].c ELSE <<LastOf(nw)>>)

Same(i, j) == Ask(<<"same", i, j>>, <<IF rd[i].s = rd[j].s THEN 1 ELSE 0>>)

SbNext ==
    IF cur = 0 THEN Ask(<<"sbnext">>, <<"err">>)
    ELSE /\ hid' = ReadOp(Items(cur), hid, 1, FALSE, FALSE).cur
         /\ UNCHANGED <<sess, cur, rd>>
         /\ Do(<<"sbnext">>, Next1(Items(cur), hid, cur))

\* a new iteration over the stream buffer: all there is (when ended) or the first item
SbIter ==
    IF cur = 0 THEN Ask(<<"sbiter">>, <<"err">>)
    ELSE /\ sess[cur].on => Items(cur) # <<>>
         /\ Ask(<<"sbiter">>, <<"list">> \o Keys(IF sess[cur].on THEN FirstN(Items(cur), 1) ELSE Items(cur)))

Drop(n) ==
    LET k == Len(Items(cur)) IN
    IF Auto THEN Ask(<<"drop", n>>, <<"err">>)
    ELSE /\ cur > 0
         /\ sess' = [sess EXCEPT ![cur].lo = @ + Min(n, k),
                                 ![cur].hi = IF sess[cur].on THEN @ + Min(n, k) ELSE Hi(sess[cur])]
         /\ UNCHANGED <<cur, hid, rd>>
         /\ Do(<<"drop", n>>, IF n <= k THEN <<"ok">> ELSE <<"err">>)

Join == N > 0 /\ ~On /\ ~sess[N].dead /\ Ask(<<"join">>, <<"ok">>)
JoinFor == /\ On /\ Ask(<<"joinfor">>, <<"ok">>)

Used == {i \in Slots : rd[i].s > 0}
Has(o) == o \in Ops

Next ==
    \/ Start("ok")
    \/ \E h \in Fails : Start(h)
    \/ Stop \/ Advance \/ Die
    \/ Has("state") /\ (IsRun \/ SInfo \/ Join \/ JoinFor)
    \/ Has("sb") /\ (SbNext \/ SbIter)
    \/ Has("drop") /\ \E n \in {1, 2} : Drop(n)
    \/ \E i \in Slots : Mk(i)
    \/ \E i \in Used : \/ Attach(i)
                       \/ Has("read") /\ Read(i)
                       \/ Has("next") /\ NextOf(i)
                       \/ Has("block") /\ Block(i)
                       \/ Has("tail") /\ TailNew(i)
                       \/ Has("iter") /\ IterAll(i)
    \/ \E i, j \in Used : i < j /\ Same(i, j)

Bit(b) == IF b THEN 1 ELSE 0
Obs == <<[i \in DOMAIN sess |-> <<sess[i].opens, sess[i].closes>>],
         [i \in Slots |-> IF rd[i].s = 0 THEN <<>>
                          ELSE <<rd[i].s, Bit(~sess[rd[i].s].on), Keys(Items(rd[i].s)), Keys(rd[i].c)>>],
         Bit(On), cur>>
Flat == <<cfg, [i \in DOMAIN sess |-> <<sess[i].av, sess[i].lo, sess[i].hi, Bit(sess[i].on), Bit(sess[i].dead), sess[i].closes>>],
          cur, Keys(hid), [i \in Slots |-> <<rd[i].s, Keys(rd[i].c)>>]>>
Emit == PrintT(ToString(<<"X", Flat, op', res', Flat', Obs'>>))
-----------------------------------------------------------------------------
OneAtATime == \A i \in DOMAIN sess : i < N => ~sess[i].on                                      \* C05
ClosedOnce == \A i \in DOMAIN sess : sess[i].closes <= 1 /\ (sess[i].on => sess[i].closes = 0)  \* C05
FailedEnds == \A i \in DOMAIN sess : sess[i].dead => ~sess[i].on /\ i # cur                    \* C04
Truth == On => cur = N                                                                          \* C06
Isolated == \A i \in Used : \A k \in KeysOf(Items(rd[i].s)) : k \div 100 = rd[i].s              \* C06
Bounded == M > 0 => \A s \in DOMAIN sess : Len(Items(s)) <= M                                   \* C01, C02
=============================================================================
