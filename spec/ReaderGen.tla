----------------------------- MODULE ReaderGen -----------------------------
(* Every single call of a reader on every small buffer and cursor, with the   *)
(* answer and the cursor it must leave; each is printed and then executed on  *)
(* the real code.  The invariants state the reading properties directly.      *)
EXTENDS ReaderOps, TLC

CONSTANTS
    Top,        \* keys are 0..Top
    Los, His,   \* bounds of ranges, shifted by one: 0 means -1
    Steps, Ns,  \* steps and read sizes
    Mode        \* "read" "range" "ends" "defaults"

VARIABLES buf, cur, op, out

gvars == <<buf, cur, op, out>>

Item(k) == <<k, k>>
SeqOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE <<Item(MinOf(T))>> \o F(T \ {MinOf(T)}) IN F(S)
None == [t |-> "", v |-> <<>>, cur |-> <<>>]

GInit ==
    /\ \E S \in SUBSET (0..Top) : buf = SeqOf(S)
    /\ cur \in {<<>>} \cup {<<Item(k)>> : k \in 0..Top}
    /\ op = <<>>
    /\ out = None

B == {0, 1}
ReadCalls == {<<"read", n, p, s, i>> : n \in Ns, p \in B, s \in B, i \in B}
RangeCalls == {<<"range", lo - 1, hi - 1, st, p, i, nw, le, ge>> :
                 lo \in Los, hi \in His, st \in Steps, p \in B, i \in B, nw \in B, le \in B, ge \in B}
EndCalls == {<<"head", p>> : p \in B} \cup {<<"tail", p, i, nw>> : p \in B, i \in B, nw \in B}
\* reader made with (n, peek, strict, ign), call with options (0: not given) or 2: not given
DefCalls == {<<"def", mn, mp, ms, mi, n, p, s, i>> :
               mn \in {1, 2}, mp \in B, ms \in B, mi \in B, n \in {0, 1, 2, 3}, p \in 0..2, s \in 0..2, i \in 0..2}
            \cup {<<"defnext", mn, mp, ms, mi>> : mn \in {1, 2, 3}, mp \in B, ms \in B, mi \in B}
            \cup {<<"defrange", mp, mi, i>> : mp \in B, mi \in B, i \in 0..2}

Calls == CASE Mode = "read" -> ReadCalls [] Mode = "range" -> RangeCalls
           [] Mode = "ends" -> EndCalls [] Mode = "defaults" -> DefCalls

Or(x, d) == IF x = 2 THEN d = 1 ELSE x = 1

Resolved(o, ign) == [t |-> Answer(o, ign).t, v |-> o.v, cur |-> o.cur]

Eval(c) ==
    CASE c[1] = "read" -> Resolved(ReadOp(buf, cur, c[2], c[3] = 1, c[4] = 1), c[5] = 1)
      [] c[1] = "range" -> Resolved(RangeOp(buf, cur, c[2], c[3], c[4], c[5] = 1, c[7] = 1, c[8] = 1, c[9] = 1), c[6] = 1)
      [] c[1] = "head" -> Resolved(HeadOp(buf, cur, c[2] = 1), FALSE)
      [] c[1] = "tail" -> Resolved(TailOp(buf, cur, c[2] = 1, c[4] = 1), c[3] = 1)
      [] c[1] = "def" -> Resolved(ReadOp(buf, cur, IF c[6] = 0 THEN c[2] ELSE c[6], Or(c[7], c[3]), Or(c[8], c[4])), Or(c[9], c[5]))
      [] c[1] = "defnext" -> Resolved(ReadOp(buf, cur, c[2], c[3] = 1, c[4] = 1), TRUE)
      [] c[1] = "defrange" -> Resolved(RangeOp(buf, cur, 1, 2, 1, FALSE, FALSE, FALSE, FALSE), Or(c[4], c[3]))

GNext ==
    /\ op = <<>>
    /\ \E c \in Calls : op' = c /\ out' = Eval(c)
    /\ UNCHANGED <<buf, cur>>

Ks(s) == [i \in DOMAIN s |-> Key(s[i])]
Emit == op # <<>> => PrintT(ToString(<<"X", Ks(buf), Ks(cur), op, out.t, Ks(out.v), Ks(out.cur)>>))

-----------------------------------------------------------------------------
(* The properties, said again without the operators of ReaderOps *)

Is(name) == op # <<>> /\ op[1] = name
CurKey == IF cur = <<>> THEN -99 ELSE Key(cur[1])
NewKeys == {k \in KeysOf(buf) : k > CurKey}
OutKeys == {Key(out.v[i]) : i \in DOMAIN out.v}
InOrder == Increasing(out.v) /\ OutKeys \subseteq KeysOf(buf)

\* C07
ReadIsSequential == Is("read") =>
    LET n == op[2] strict == op[4] = 1 IN
    /\ InOrder
    /\ NewKeys = {} => out.t = (IF op[5] = 1 THEN "none" ELSE "err")
    /\ out.v # <<>> => /\ OutKeys \subseteq NewKeys
                       /\ \A k \in NewKeys \ OutKeys : \A j \in OutKeys : j < k
                       /\ Cardinality(OutKeys) <= n
    /\ (NewKeys # {} /\ ~(strict /\ n > 1 /\ Cardinality(NewKeys) < n)) =>
           Cardinality(OutKeys) = (IF Cardinality(NewKeys) < n THEN Cardinality(NewKeys) ELSE n)
    /\ (strict /\ n > 1 /\ NewKeys # {} /\ Cardinality(NewKeys) < n) => out.t = "err"

\* C08
CursorMoves == op # <<>> =>
    out.cur = (IF out.v = <<>> \/ (op[1] = "read" /\ op[3] = 1) \/ (op[1] = "range" /\ op[5] = 1)
                  \/ (op[1] \in {"head", "tail"} /\ op[2] = 1)
                  \/ (op[1] = "def" /\ Or(op[7], op[3])) \/ (op[1] = "defnext" /\ op[3] = 1)
               THEN cur ELSE <<out.v[Len(out.v)]>>)

\* C09
RangeIsInterval == Is("range") =>
    LET lo == op[2] hi == op[3] st == op[4] p == op[5] = 1 nw == op[7] = 1 le == op[8] = 1 ge == op[9] = 1
        from == IF le /\ \E k \in KeysOf(buf) : k <= lo
                THEN CHOOSE k \in KeysOf(buf) : k <= lo /\ \A j \in KeysOf(buf) : j <= lo => j <= k ELSE lo
        miss == ge /\ ~\E k \in KeysOf(buf) : k >= hi
        to == IF ge /\ ~miss THEN CHOOSE k \in KeysOf(buf) : k >= hi /\ \A j \in KeysOf(buf) : j >= hi => j >= k ELSE hi
        match == {k \in KeysOf(buf) : from <= k /\ k <= to /\ (nw => k > CurKey)}
        want == {k \in match : Cardinality({j \in match : j < k}) % st = 0}
        nonew == nw /\ cur # <<>> /\ NewKeys = {}
    IN /\ InOrder
       /\ IF nonew \/ miss \/ (want = {} /\ ~p) THEN out.t = (IF op[6] = 1 THEN "none" ELSE "err")
          ELSE out.t = "list" /\ OutKeys = want

\* C10
EndsAreEnds ==
    /\ Is("head") => IF buf = <<>> THEN out.t = "err" ELSE out.t = "item" /\ out.v = <<buf[1]>>
    /\ Is("tail") => IF buf = <<>> \/ (op[4] = 1 /\ cur # <<>> /\ Key(buf[Len(buf)]) <= CurKey)
                     THEN out.t = (IF op[3] = 1 THEN "none" ELSE "err")
                     ELSE out.t = "item" /\ out.v = <<buf[Len(buf)]>>
=============================================================================
