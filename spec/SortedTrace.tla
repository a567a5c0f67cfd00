---------------------------- MODULE SortedTrace ----------------------------
(* Checks recorded histories of real sorted collections, of hundreds of       *)
(* items, against the operations of SortedSeq.                                *)
EXTENDS SortedSeq, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES)
Single == IOEnv.SINGLE = "1"
VARIABLES tid, l
tvars == <<svars, tid, l>>

T == Traces[tid]

TInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ kind = T.kind /\ key = T.key /\ max = T.max
    /\ seq = <<>> /\ op = None /\ res = None /\ was = None

Has(v) == Positions(v) # {}

\* an operation that cannot be decided by the items: an error, and nothing changes
Step(e) ==
    CASE e.o = "construct" -> LET s == Cut(Stable(e.s, key), max) IN To(s, Lst(s))
      [] e.o = "insert" -> Insert(e.v, FALSE)
      [] e.o = "insert_right" -> Insert(e.v, TRUE)
      [] e.o = "append" -> AppendOp(e.v)
      [] e.o = "remove" -> RemoveOp(e.v)
      [] e.o = "index" -> Stay(IF Has(e.v) THEN Num(First(Positions(e.v)) - 1) ELSE ErrR)
      [] e.o = "count" -> Stay(Num(Cardinality(Positions(e.v))))
      [] e.o = "contains" -> Stay(Num(IF Has(e.v) THEN 1 ELSE 0))
      [] e.o = "drop" -> DropOp(e.n[1])
      [] e.o \in {"find", "find_le", "find_lt", "find_ge", "find_gt", "find_last_gt"} -> Stay(Find(e.o, e.n[1]))
      [] e.o = "range" -> Stay(RangeOf(e.n[1], e.n[2], e.n[3]))
      [] e.o \in {"range_by_index", "slice"} -> Stay(Slice(e.n[1], e.n[2], e.n[3]))
      [] e.o = "setkey" -> seq' = Stable(seq, e.f) /\ key' = e.f /\ res' = Ok /\ UNCHANGED <<kind, max>>
      [] e.o = "delkey" -> seq' = Stable(seq, "I") /\ key' = "I" /\ res' = Ok /\ UNCHANGED <<kind, max>>
      [] e.o = "setmax" -> seq' = Cut(seq, e.n[1]) /\ max' = e.n[1] /\ res' = Ok /\ UNCHANGED <<kind, key>>
      [] e.o = "delmax" -> seq' = seq /\ max' = Free /\ res' = Ok /\ UNCHANGED <<kind, key>>
      [] e.o \in {"badkey", "nocmp", "badsetkey"} -> Stay(ErrR)
      [] e.o = "clear" -> To(<<>>, Ok)
      [] e.o \in {"copy", "pickle", "deepcopy", "iter"} -> Stay(Lst(seq))
      [] e.o = "reversed" -> Stay(Lst([i \in DOMAIN seq |-> seq[Len(seq) + 1 - i]]))
      [] e.o = "getitem" -> LET i == e.n[1] IN
            Stay(IF i >= 0 /\ i < Len(seq) THEN At(i + 1)
                 ELSE IF i < 0 /\ -i <= Len(seq) THEN At(Len(seq) + 1 + i) ELSE ErrR)

Matches(e) ==
    /\ e.x = res'
    /\ e.m = max'
    /\ Len(e.q) = Len(seq')
    /\ \A i \in DOMAIN seq' : e.q[i] = seq'[i][3]

TNext ==
    /\ l <= Len(T.ev)
    /\ Step(T.ev[l])
    /\ Matches(T.ev[l])
    /\ l' = l + 1
    /\ UNCHANGED <<op, was, tid>>

Report ==
    /\ l > Len(T.ev) => PrintT(<<"ACCEPTED", tid>>)
    /\ Single => (IF l > TLCGet(7) THEN TLCSet(7, l) /\ PrintT(<<"REACHED", l>>) ELSE TRUE)
ASSUME TLCSet(7, 0)
=============================================================================
