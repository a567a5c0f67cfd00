-------------------------------- MODULE Twins --------------------------------
(* Two stream buffers over two sources at once, call by call, and readers that *)
(* are attached from one to the other.  After every call everything has        *)
(* happened that will happen without another one.  Item i of session s of      *)
(* buffer b has the key s * 100 + i * 10 + b.                                  *)
EXTENDS ReaderOps, TLC

CONSTANTS Bufs, MaxSessions, MaxTotal, MaxItems, MaxAll, Slots, Cfgs, Ops
\* MaxSessions, MaxItems: of one buffer; MaxTotal, MaxAll: of both

VARIABLES
    cfg,        \* buffer -> <<maximum length, automatic dropping>>
    sess,       \* buffer -> sequence of [av: items the source had, lo, hi: dropped and room up to, on]
    hid,        \* buffer -> cursor of next(stream_buffer)
    rd,         \* slot -> [b: buffer or 0, s: session, c: cursor]
    op, res

state == <<cfg, sess, hid, rd>>
vars == <<cfg, sess, hid, rd, op, res>>

Mixed == {<<<<2, 1>>, <<1, 0>>>>}
Both == Mixed \cup {<<<<2, 1>>, <<2, 1>>>>}

N(b) == Len(sess[b])
On(b) == N(b) > 0 /\ sess[b][N(b)].on
M(b) == cfg[b][1]
Auto(b) == cfg[b][2] = 1
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Sessions == Sum([b \in Bufs |-> N(b)], Bufs)
All == Sum([b \in Bufs |-> Sum([s \in 1..N(b) |-> sess[b][s].av], 1..N(b))], Bufs)

Lo(b, x) == IF Auto(b) THEN Max(x.av - M(b), 0) ELSE x.lo
Hi(b, x) == IF Auto(b) THEN x.av ELSE Min(x.av, x.hi)
Items(b, s) == LET x == sess[b][s] IN
    [i \in 1..(Hi(b, x) - Lo(b, x)) |-> <<s * 100 + (Lo(b, x) + i) * 10 + b, 0>>]

Init ==
    /\ cfg \in Cfgs
    /\ sess = [b \in Bufs |-> <<>>]
    /\ hid = [b \in Bufs |-> <<>>]
    /\ rd = [i \in Slots |-> [b |-> 0, s |-> 0, c |-> <<>>]]
    /\ op = <<>> /\ res = <<>>

Do(o, r) == op' = o /\ res' = r /\ UNCHANGED cfg
Ask(o, r) == UNCHANGED <<sess, hid, rd>> /\ Do(o, r)
Keys(v) == [i \in DOMAIN v |-> Key(v[i])]
Result(o, ign) == LET a == Answer(o, ign) IN <<a.t>> \o Keys(a.v)

Ended(b) == IF On(b) THEN [sess[b] EXCEPT ![N(b)].on = FALSE] ELSE sess[b]

Start(b) ==
    /\ N(b) < MaxSessions /\ Sessions < MaxTotal
    /\ sess' = [sess EXCEPT ![b] = Append(Ended(b), [av |-> 0, lo |-> 0, hi |-> M(b), on |-> TRUE])]
    /\ hid' = [hid EXCEPT ![b] = <<>>]
    /\ UNCHANGED rd
    /\ Do(<<"start", b>>, <<"ok">>)

End(b, how) ==
    /\ N(b) > 0
    /\ how = "die" => On(b) /\ (Auto(b) \/ Len(Items(b, N(b))) < M(b))
    /\ sess' = [sess EXCEPT ![b] = Ended(b)]
    /\ UNCHANGED <<hid, rd>>
    /\ Do(<<how, b>>, <<"ok">>)

Advance(b) ==
    /\ On(b) /\ sess[b][N(b)].av < MaxItems /\ All < MaxAll
    /\ sess' = [sess EXCEPT ![b][N(b)].av = @ + 1]
    /\ UNCHANGED <<hid, rd>>
    /\ Do(<<"advance", b>>, <<"ok">>)

Drop(b) ==
    LET k == IF N(b) = 0 THEN 0 ELSE Len(Items(b, N(b))) IN
    /\ N(b) > 0
    /\ IF Auto(b) THEN Ask(<<"drop", b>>, <<"err">>)
       ELSE IF k = 0 THEN Ask(<<"drop", b>>, <<"err">>)
       ELSE /\ sess' = [sess EXCEPT ![b][N(b)].lo = @ + 1,
                                    ![b][N(b)].hi = IF On(b) THEN @ + 1 ELSE Hi(b, sess[b][N(b)])]
            /\ UNCHANGED <<hid, rd>>
            /\ Do(<<"drop", b>>, <<"ok">>)

Mk(i, b) ==
    IF N(b) = 0 THEN Ask(<<"mk", i, b>>, <<"err">>)
    ELSE /\ rd' = [rd EXCEPT ![i] = [b |-> b, s |-> N(b), c |-> <<>>]]
         /\ UNCHANGED <<sess, hid>>
         /\ Do(<<"mk", i, b>>, <<"ok">>)

\* from wherever it was
Attach(i, b) ==
    IF N(b) = 0 THEN Ask(<<"attach", i, b>>, <<"err">>)
    ELSE /\ rd' = [rd EXCEPT ![i].b = b, ![i].s = N(b)]
         /\ UNCHANGED <<sess, hid>>
         /\ Do(<<"attach", i, b>>, <<"ok">>)

Has(i) == Items(rd[i].b, rd[i].s)
Moved(i, o, r, c) == /\ rd' = [rd EXCEPT ![i].c = c]
                     /\ UNCHANGED <<sess, hid>>
                     /\ Do(o, r)

Next1(items, c, on) ==
    LET o == ReadOp(items, c, 1, FALSE, FALSE) IN
    IF o.t = "sig" THEN (IF on THEN <<"none">> ELSE <<"stop">>) ELSE Result(o, FALSE)

Read(i, n) == LET o == ReadOp(Has(i), rd[i].c, n, FALSE, FALSE) IN Moved(i, <<"read", i, n>>, Result(o, TRUE), o.cur)
NextOf(i) == Moved(i, <<"next", i>>, Next1(Has(i), rd[i].c, sess[rd[i].b][rd[i].s].on),
                   ReadOp(Has(i), rd[i].c, 1, FALSE, FALSE).cur)
TailNew(i) == LET o == TailOp(Has(i), rd[i].c, FALSE, TRUE) IN Moved(i, <<"tail", i>>, Result(o, TRUE), o.cur)
\* what is new of what the other buffer's newest session could have
News(i) == LET o == RangeOp(Has(i), rd[i].c, 0, 999, 1, FALSE, TRUE, FALSE, FALSE) IN
    Moved(i, <<"news", i>>, Result(o, TRUE), o.cur)
Forget(i) == Moved(i, <<"forget", i>>, <<"ok">>, <<>>)

Same(i, j) == Ask(<<"same", i, j>>, <<IF rd[i].b = rd[j].b /\ rd[i].s = rd[j].s THEN 1 ELSE 0>>)

SbNext(b) ==
    IF N(b) = 0 THEN Ask(<<"sbnext", b>>, <<"err">>)
    ELSE /\ hid' = [hid EXCEPT ![b] = ReadOp(Items(b, N(b)), hid[b], 1, FALSE, FALSE).cur]
         /\ UNCHANGED <<sess, rd>>
         /\ Do(<<"sbnext", b>>, Next1(Items(b, N(b)), hid[b], On(b)))

Used == {i \in Slots : rd[i].b > 0}
Can(o) == o \in Ops

Next ==
    \/ \E b \in Bufs : \/ Start(b) \/ End(b, "stop") \/ Advance(b)
                       \/ Can("die") /\ End(b, "die")
                       \/ Can("drop") /\ Drop(b)
                       \/ Can("sb") /\ SbNext(b)
                       \/ \E i \in Slots : Mk(i, b)
                       \/ \E i \in Used : Attach(i, b)
    \/ \E i \in Used : \/ Can("read") /\ \E n \in {1, 2} : Read(i, n)
                       \/ Can("next") /\ NextOf(i)
                       \/ Can("tail") /\ TailNew(i)
                       \/ Can("news") /\ News(i)
                       \/ Can("forget") /\ Forget(i)
    \/ \E i, j \in Used : i < j /\ Same(i, j)

Bit(b) == IF b THEN 1 ELSE 0
Obs == <<[b \in Bufs |-> <<Bit(On(b)), N(b)>>],
         [i \in Slots |-> IF rd[i].b = 0 THEN <<>>
                          ELSE <<rd[i].b, rd[i].s, Bit(~sess[rd[i].b][rd[i].s].on), Keys(Has(i)), Keys(rd[i].c)>>]>>
Flat == <<cfg, [b \in Bufs |-> [s \in DOMAIN sess[b] |-> <<sess[b][s].av, sess[b][s].lo, sess[b][s].hi, Bit(sess[b][s].on)>>]],
          [b \in Bufs |-> Keys(hid[b])], [i \in Slots |-> <<rd[i].b, rd[i].s, Keys(rd[i].c)>>]>>
Emit == PrintT(ToString(<<"X", Flat, op', res', Flat', Obs'>>))
-----------------------------------------------------------------------------
\* a reader sees its own buffer's session only
Isolated == \A i \in Used : \A k \in KeysOf(Has(i)) : k \div 100 = rd[i].s /\ k % 10 = rd[i].b           \* C06
Bounded == \A b \in Bufs : \A s \in DOMAIN sess[b] : Len(Items(b, s)) <= M(b)                            \* C01, C02
\* what happens to one buffer changes nothing of another
Apart == [][\A b \in Bufs : sess'[b] # sess[b] => op'[2] = b]_vars
Alone == [][\A i \in Slots : rd'[i] # rd[i] => op'[2] = i]_vars                                          \* C08
=============================================================================
