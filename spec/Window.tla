------------------------------- MODULE Window -------------------------------
(* A stream buffer of any size whose items are numbered 0, 1, 2, ... as they  *)
(* come and have the keys 0, 2, 4, ...: what is buffered is an interval of numbers, and so is every answer.  *)
(* Being symbolic in the lengths, the module covers buffers and bursts of     *)
(* tens of thousands of items.                                                *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxLens, Bursts, Drops, Sizes, Steps, Most, Depth     \* maxlen 0: unbounded

VARIABLES
    conf,       \* <<maxlen, auto>>
    avail,      \* items the source has had so far
    hi, lo,     \* buffered: lo..hi-1
    at,         \* the reader has seen everything before this one
    d,          \* operations so far
    op, res

state == <<conf, avail, hi, lo, at>>
vars == <<conf, avail, hi, lo, at, d, op, res>>

M == conf[1]
Auto == conf[2] = 1
Bounded == M > 0
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Init ==
    /\ conf \in MaxLens \X {0, 1}
    /\ avail = 0 /\ hi = 0 /\ lo = 0 /\ at = 0 /\ d = 0
    /\ op = <<>> /\ res = <<>>

Do(o, r) == op' = o /\ res' = r /\ d' = d + 1 /\ UNCHANGED conf

\* where the buffer ends once the reading thread has done all it can
Fill(a, l) == IF Bounded /\ ~Auto THEN Min(a, l + M) ELSE a

\* the source gets so many more items and time passes
Burst(n) ==
    /\ avail + n <= Most
    /\ avail' = avail + n
    /\ hi' = Fill(avail', lo)
    /\ lo' = IF Bounded THEN Max(lo, hi' - M) ELSE lo
    /\ UNCHANGED at
    /\ Do(<<"burst", n>>, <<"ok">>)

Drop(n) ==
    /\ IF Auto THEN UNCHANGED <<lo, hi>>
       ELSE /\ lo' = Min(lo + n, hi)
            /\ hi' = Fill(avail, lo')
    /\ UNCHANGED <<avail, at>>
    /\ Do(<<"drop", n>>, IF Auto \/ lo + n > hi THEN <<"err">> ELSE <<"ok">>)

First == Max(lo, at)
Look(o, r) == Do(o, r) /\ UNCHANGED <<avail, hi, lo>>

\* the next n items, `times` times
Read(n, times, peek) ==
    LET to == Min(hi, First + n * times) IN
    IF First = hi THEN UNCHANGED at /\ Look(<<"read", n, times, peek>>, <<"none">>)
    ELSE /\ at' = IF peek = 1 THEN at ELSE to
         /\ Look(<<"read", n, times, peek>>, <<"items", First, to, 1>>)

Strict(n) ==
    IF hi - First >= n
    THEN at' = First + n /\ Look(<<"strict", n>>, <<"items", First, First + n, 1>>)
    ELSE UNCHANGED at /\ Look(<<"strict", n>>, IF First = hi THEN <<"none">> ELSE <<"err">>)

Ends(which) ==
    LET k == IF which = "head" THEN lo ELSE hi - 1 IN
    IF lo = hi THEN UNCHANGED at /\ Look(<<which>>, <<"none">>)
    ELSE at' = k + 1 /\ Look(<<which>>, <<"items", k, k + 1, 1>>)

LastMultiple(from, to, st) == from + ((to - 1 - from) \div st) * st
Range(a, b, st, peek) ==
    LET from == Max(a, lo)
        to == Min(b + 1, hi)
        o == <<"range", a, b, st, peek>>
    IN IF from >= to THEN UNCHANGED at /\ Look(o, <<"none">>)
       ELSE /\ at' = IF peek = 1 THEN at ELSE LastMultiple(from, to, st) + 1
            /\ Look(o, <<"items", from, to, st>>)

\* between two keys, with the options; empty answers are no answer here
Pick(a, b, new, le, ge, peek) ==
    LET start == IF le /\ lo < hi /\ a >= 2 * lo THEN Min(a \div 2, hi - 1) ELSE (a + 1) \div 2
        above == lo < hi /\ b <= 2 * (hi - 1)
        stop == IF ge /\ above THEN Max((b + 1) \div 2, lo) ELSE b \div 2
        from == Max(Max(start, lo), IF new THEN at ELSE 0)
        to == Min(stop + 1, hi)
        o == <<"pick", a, b, new, le, ge, peek>>
    IN IF (ge /\ ~above) \/ from >= to THEN UNCHANGED at /\ Look(o, <<"none">>)
       ELSE /\ at' = IF peek = 1 THEN at ELSE to
            /\ Look(o, <<"items", from, to, 1>>)

TailNew ==
    IF lo = hi \/ at >= hi THEN UNCHANGED at /\ Look(<<"tailnew">>, <<"none">>)
    ELSE at' = hi /\ Look(<<"tailnew">>, <<"items", hi - 1, hi, 1>>)

Between == {2 * lo - 1, lo + hi, 2 * hi - 3, 2 * hi - 1} \cap 0..(2 * Most)
Places == {lo - 1, lo, lo + 1, (lo + hi) \div 2, hi - 1, hi}

Next ==
    /\ d < Depth
    /\ \/ \E n \in Bursts : Burst(n)
       \/ d > 0 /\ \E n \in Drops : Drop(n)
       \/ d > 0 /\ hi > 0 /\ \E n \in Sizes, p \in {0, 1} : Read(n, 1, p)
       \/ d > 0 /\ hi > 0 /\ \E n \in Sizes : Read(1, n, 0) \/ (n > 1 /\ Strict(n))
       \/ d > 0 /\ hi > 0 /\ \E w \in {"head", "tail"} : Ends(w)
       \/ d > 0 /\ hi > 0 /\ \E a \in Places, b \in Places, st \in Steps, p \in {0, 1} : Range(a, b, st, p)
       \/ d > 0 /\ hi > 0 /\ TailNew
       \/ d > 0 /\ hi > 0 /\ \E a \in Between, b \in Between, new, le, ge \in BOOLEAN :
            (new \/ le \/ ge) /\ Pick(a, b, new, le, ge, IF a = b THEN 1 ELSE 0)

seen == <<state, d>>
Emit == PrintT(ToString(<<"X", state, op', res', state'>>))
-----------------------------------------------------------------------------
\* C01
Window == Auto => hi = avail /\ lo = (IF Bounded /\ avail > M THEN avail - M ELSE 0)
\* C02
Kept == ~Auto => lo <= hi /\ (Bounded => hi - lo <= M) /\ (hi < avail => Bounded /\ hi - lo = M)
NothingLost == [][lo' # lo /\ ~Auto => op'[1] = "drop"]_vars
\* C07: every item once, in order
InOrder == [][res' # <<>> /\ op'[1] \in {"read", "strict"} /\ res'[1] = "items" => res'[2] = Max(lo, at) /\ res'[3] <= hi]_vars
=============================================================================
