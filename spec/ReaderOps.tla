----------------------------- MODULE ReaderOps -----------------------------
(* The meaning of every reading call of a reader, as pure operators.          *)
(*                                                                            *)
(* An item is a pair <<key, serial>>; a buffer is a sequence of items with    *)
(* strictly increasing keys; a cursor is <<>> (nothing seen yet) or <<item>>. *)
(* An outcome is [t, v, cur]: what kind of answer, the items in it and the    *)
(* cursor afterwards.  t is                                                   *)
(*   "item"  one item            "list"  a list of items                      *)
(*   "sig"   nothing to return: an exception, or None when missing items are  *)
(*           to be ignored       "err"   an exception in any case             *)
EXTENDS Integers, Sequences, FiniteSets

Key(item) == item[1]

KeysOf(buf) == {Key(buf[i]) : i \in DOMAIN buf}

Increasing(buf) == \A i \in 1..(Len(buf) - 1) : Key(buf[i]) < Key(buf[i + 1])

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

IsNewer(item, cur) == cur = <<>> \/ Key(item) > Key(cur[1])

Newer(buf, cur) == SelectSeq(buf, LAMBDA x : IsNewer(x, cur))

LastOf(s) == s[Len(s)]
FirstN(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

\* Every step-th element, from the first.
Thin(s, step) == [i \in 1..((Len(s) + step - 1) \div step) |-> s[1 + (i - 1) * step]]

Sig(cur) == [t |-> "sig", v |-> <<>>, cur |-> cur]
Err(cur) == [t |-> "err", v |-> <<>>, cur |-> cur]

Data(t, v, cur, peek) ==
    [t |-> t, v |-> v, cur |-> IF peek \/ v = <<>> THEN cur ELSE <<LastOf(v)>>]

\* Sequential read of n items
ReadOp(buf, cur, n, peek, strict) ==
    LET nw == Newer(buf, cur) IN
    IF nw = <<>> THEN Sig(cur)
    ELSE IF n <= 1 THEN Data("item", <<nw[1]>>, cur, peek)
    ELSE IF strict /\ Len(nw) < n THEN Err(cur)
    ELSE Data("list", FirstN(nw, n), cur, peek)

\* Items by key, from lo to hi inclusive
RangeOp(buf, cur, lo, hi, step, peek, new, le, ge) ==
    LET below == {k \in KeysOf(buf) : k <= lo}
        above == {k \in KeysOf(buf) : k >= hi}
        start == IF le /\ below # {} THEN MaxOf(below) ELSE lo
        stop  == IF ge /\ above # {} THEN MinOf(above) ELSE hi
        inside == SelectSeq(buf, LAMBDA x : /\ Key(x) >= start
                                            /\ Key(x) <= stop
                                            /\ new => IsNewer(x, cur))
        items == Thin(inside, step)
    IN IF \/ new /\ cur # <<>> /\ Newer(buf, cur) = <<>>
          \/ ge /\ above = {}
          \/ items = <<>> /\ ~peek
       THEN Sig(cur)
       ELSE Data("list", items, cur, peek)

HeadOp(buf, cur, peek) ==
    IF buf = <<>> THEN Err(cur) ELSE Data("item", <<buf[1]>>, cur, peek)

TailOp(buf, cur, peek, new) ==
    IF buf = <<>> \/ (new /\ ~IsNewer(LastOf(buf), cur)) THEN Sig(cur)
    ELSE Data("item", <<LastOf(buf)>>, cur, peek)

\* The observable answer: [t, v] with "sig" resolved by the ignore option
Answer(o, ign) ==
    IF o.t = "sig" THEN [t |-> IF ign THEN "none" ELSE "err", v |-> <<>>]
    ELSE [t |-> o.t, v |-> o.v]
=============================================================================
