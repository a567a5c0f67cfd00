----------------------------- MODULE SortedSeq -----------------------------
(* The sorted collection and the bounded sorted deque as one sequence sorted  *)
(* by a key.  An item is <<a, b, serial>>; items are equal when their b are, so  *)
(* equal items may have different keys and items of equal keys may differ;    *)
(* the key functions are "A" (a), "B" (b) and "I" (no key: the item itself).  *)
(* Looking for an item finds the equal ones that have its key.                *)
(* Every state with at most MaxN items and every operation is printed with    *)
(* its result and the state after it; the serials of a state are its          *)
(* positions, the item of an operation has serial 0.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS As, Bs, MaxN, Bounds, Kinds,  \* kinds "C" "D"
          Free                          \* the bound that is none

VARIABLES kind, seq, key, max, op, res,
          was   \* history: the state before

svars == <<kind, seq, key, max, op, res, was>>

Values == {<<a, b>> : a \in As, b \in Bs}
K(f, x) == CASE f = "A" -> x[1] [] f = "B" -> x[2] [] f = "I" -> x[1] * 10 + x[2]
Sorted(s, f) == \A i \in 1..(Len(s) - 1) : K(f, s[i]) <= K(f, s[i + 1])
Probes(f) == CASE f = "A" -> {-1} \cup As \cup {5} [] f = "B" -> {-1} \cup Bs \cup {5}
               [] f = "I" -> {-1} \cup {a * 10 + b : a \in As, b \in Bs} \cup {99}

Number(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][2], i>>]
Seqs(n) == UNION {[1..m -> Values] : m \in 0..n}
None == <<>>
Full(s) == Len(s) >= max

Init ==
    /\ kind \in Kinds
    /\ key \in {"A", "B", "I"}
    /\ max \in (IF kind = "C" THEN {Free} ELSE Bounds)
    /\ \E s \in Seqs(MaxN) : seq = Number(s)
    /\ Sorted(seq, key) /\ Len(seq) <= max
    /\ op = None /\ res = None
    /\ was = <<key, max, seq>>

\* results: <<"ok">> nothing, <<"item", s>>, <<"n", n>>, <<"list", s...>>, <<"err">>
Ok == <<"ok">>
ErrR == <<"err">>
It(x) == <<"item", x[3]>>
Num(n) == <<"n", n>>
Lst(s) == <<"list">> \o [i \in DOMAIN s |-> s[i][3]]

Below(f, k) == Cardinality({i \in DOMAIN seq : K(f, seq[i]) < k})
UpTo(f, k) == Cardinality({i \in DOMAIN seq : K(f, seq[i]) <= k})
InsertAt(n, x) == SubSeq(seq, 1, n) \o <<x>> \o SubSeq(seq, n + 1, Len(seq))
Cut(s, m) == IF Len(s) <= m THEN s ELSE SubSeq(s, Len(s) - m + 1, Len(s))
Thin(s, st) == [i \in 1..((Len(s) + st - 1) \div st) |-> s[1 + (i - 1) * st]]
Positions(v) == {i \in DOMAIN seq : seq[i][2] = v[2] /\ K(key, seq[i]) = K(key, v)}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
RemoveAt(i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))

\* stable sort by insertion
RECURSIVE StableFrom(_, _, _)
StableFrom(done, rest, f) ==
    IF rest = <<>> THEN done
    ELSE LET x == Head(rest)
             n == Cardinality({i \in DOMAIN done : K(f, done[i]) <= K(f, x)})
         IN StableFrom(SubSeq(done, 1, n) \o <<x>> \o SubSeq(done, n + 1, Len(done)), Tail(rest), f)
Stable(s, f) == StableFrom(<<>>, s, f)

To(s, r) == seq' = s /\ res' = r /\ UNCHANGED <<kind, key, max>>
Stay(r) == To(seq, r)
At(i) == It(seq[i])

Mk(v) == IF Len(v) = 3 THEN v ELSE <<v[1], v[2], 0>>

Insert(v, right) ==
    IF Full(seq) THEN Stay(ErrR)
    ELSE LET x == Mk(v) IN
         To(InsertAt(IF right THEN UpTo(key, K(key, x)) ELSE Below(key, K(key, x)), x), Ok)

AppendOp(v) ==
    LET x == Mk(v) IN
    IF seq # <<>> /\ K(key, x) <= K(key, seq[Len(seq)]) THEN Stay(ErrR)
    ELSE To(Cut(Append(seq, x), max), Ok)

RemoveOp(v) == IF Positions(v) = {} THEN Stay(ErrR) ELSE To(RemoveAt(First(Positions(v))), Ok)

DropOp(n) == IF n > Len(seq) THEN To(<<>>, ErrR) ELSE To(SubSeq(seq, n + 1, Len(seq)), Ok)

Find(how, k) ==
    CASE how = "find" -> (IF UpTo(key, k) > Below(key, k) THEN At(Below(key, k) + 1) ELSE ErrR)
      [] how = "find_le" -> (IF UpTo(key, k) > 0 THEN At(UpTo(key, k)) ELSE ErrR)
      [] how = "find_lt" -> (IF Below(key, k) > 0 THEN At(Below(key, k)) ELSE ErrR)
      [] how = "find_ge" -> (IF Below(key, k) < Len(seq) THEN At(Below(key, k) + 1) ELSE ErrR)
      [] how = "find_gt" -> (IF UpTo(key, k) < Len(seq) THEN At(UpTo(key, k) + 1) ELSE ErrR)
      [] how = "find_last_gt" -> (IF seq # <<>> /\ K(key, seq[Len(seq)]) > k THEN At(Len(seq)) ELSE ErrR)

RangeOf(lo, hi, st) == Lst(Thin(SelectSeq(seq, LAMBDA x : K(key, x) >= lo /\ K(key, x) <= hi), st))
Slice(i, j, st) == Lst(Thin(SubSeq(seq, i + 1, IF j < Len(seq) THEN j ELSE Len(seq)), st))

D == kind = "D"
Do(o) == op' = o

Next ==
    /\ op = None
    /\ \/ \E v \in Values :
            \/ Do(<<"insert", v[1], v[2]>>) /\ Insert(v, FALSE)
            \/ Do(<<"insert_right", v[1], v[2]>>) /\ Insert(v, TRUE)
            \/ D /\ Do(<<"append", v[1], v[2]>>) /\ AppendOp(v)
            \/ Do(<<"remove", v[1], v[2]>>) /\ RemoveOp(v)
            \/ Do(<<"index", v[1], v[2]>>) /\ Stay(IF Positions(v) = {} THEN ErrR ELSE Num(First(Positions(v)) - 1))
            \/ Do(<<"count", v[1], v[2]>>) /\ Stay(Num(Cardinality(Positions(v))))
            \/ Do(<<"contains", v[1], v[2]>>) /\ Stay(Num(IF Positions(v) = {} THEN 0 ELSE 1))
       \/ D /\ \E n \in 0..(MaxN + 1) : Do(<<"drop", n>>) /\ DropOp(n)
       \/ D /\ Do(<<"drop1">>) /\ DropOp(1)
       \/ \E k \in Probes(key) :
            \/ \E how \in {"find", "find_le", "find_lt", "find_ge", "find_gt"} : Do(<<how, k>>) /\ Stay(Find(how, k))
            \/ D /\ Do(<<"find_last_gt", k>>) /\ Stay(Find("find_last_gt", k))
            \/ D /\ \E j \in Probes(key), st \in 1..3 : Do(<<"range", k, j, st>>) /\ Stay(RangeOf(k, j, st))
       \/ \E i, j \in 0..(MaxN + 1), st \in 1..2 :
            Do(<<IF D THEN "range_by_index" ELSE "slice", i, j, st>>) /\ Stay(Slice(i, j, st))
       \/ \E f \in {"A", "B", "I"} :
            /\ Do(<<"setkey", f>>) /\ seq' = Stable(seq, f) /\ key' = f /\ res' = Ok /\ UNCHANGED <<kind, max>>
       \/ /\ Do(<<"delkey">>) /\ seq' = Stable(seq, "I") /\ key' = "I" /\ res' = Ok /\ UNCHANGED <<kind, max>>
       \/ D /\ \E m \in Bounds : /\ Do(<<"setmax", m>>) /\ seq' = Cut(seq, m) /\ max' = m
                                 /\ res' = Ok /\ UNCHANGED <<kind, key>>
       \/ D /\ /\ Do(<<"delmax">>) /\ max' = Free /\ res' = Ok /\ UNCHANGED <<kind, key, seq>>
       \/ D /\ Do(<<"badmax">>) /\ Stay(ErrR)
       \/ \E how \in {"insert", "insert_right", "append", "remove", "index", "count", "contains"} :
            /\ how = "append" => D
            /\ \/ key # "I" /\ Do(<<"badkey", how>>) /\ Stay(ErrR)        \* the key function raises
               \/ seq # <<>> /\ Do(<<"nocmp", how>>) /\ Stay(ErrR)    \* the key cannot be compared
       \/ seq # <<>> /\ Do(<<"badsetkey">>) /\ Stay(ErrR)
       \/ Do(<<"clear">>) /\ To(<<>>, Ok)
       \/ \E how \in {"copy", "pickle", "deepcopy"} : Do(<<how>>) /\ Stay(Lst(seq))
       \/ \E how \in {"iter"} : Do(<<how>>) /\ Stay(Lst(seq))
       \/ Do(<<"reversed">>) /\ Stay(Lst([i \in DOMAIN seq |-> seq[Len(seq) + 1 - i]]))
       \/ Do(<<"len">>) /\ Stay(Num(Len(seq)))
       \/ \E i \in (-MaxN - 1)..MaxN :
            /\ Do(<<"getitem", i>>)
            /\ Stay(IF i >= 0 /\ i < Len(seq) THEN At(i + 1)
                    ELSE IF i < 0 /\ -i <= Len(seq) THEN At(Len(seq) + 1 + i) ELSE ErrR)

\* constructing from any order of items
Build ==
    /\ op = None /\ seq = <<>>
    /\ \E s \in Seqs(MaxN) :
         /\ op' = <<"construct">> \o s
         /\ LET z == [i \in DOMAIN s |-> <<s[i][1], s[i][2], i>>] IN
            seq' = Cut(Stable(z, key), max)
         /\ res' = Lst(seq')
    /\ UNCHANGED <<kind, key, max>>

GNext == (Next \/ Build) /\ UNCHANGED was

Emit == op # None => PrintT(ToString(<<"X", kind, was, op, res, <<key, max, seq>>>>))

-----------------------------------------------------------------------------
\* C18
Inv ==
    /\ Sorted(seq, key)
    /\ Len(seq) <= max
=============================================================================
