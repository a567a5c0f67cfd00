------------------------------ MODULE Version ------------------------------
(* A package index, and the version to publish next: one more than the        *)
(* greatest one that was published, by number and not by letter.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Numbers, MaxLen, MaxReleases, MaxSteps

VARIABLES rel, there, steps, op, res

state == <<rel, there, steps>>
vars == <<rel, there, steps, op, res>>

Versions == UNION {[1..n -> Numbers] : n \in 1..MaxLen}

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Greatest(S) == CHOOSE x \in S : \A w \in S : w = x \/ Less(w, x)
Incremented(v) == [v EXCEPT ![Len(v)] = @ + 1]

Current == IF there /\ rel # {} THEN <<"version", Greatest(rel)>> ELSE <<"none">>
NextOne == IF there /\ rel # {} THEN <<"version", Incremented(Greatest(rel))>> ELSE <<"default">>

Init == rel = {} /\ there = FALSE /\ steps = 0 /\ op = <<>> /\ res = <<>>

Change(o) == steps < MaxSteps /\ steps' = steps + 1 /\ op' = o /\ res' = <<"ok">>

Register ==
    ~there /\ there' = TRUE /\ Change(<<"register">>) /\ UNCHANGED rel
Publish(v) ==
    there /\ Cardinality(rel) < MaxReleases /\ v \notin rel /\ rel' = rel \cup {v} /\ Change(<<"publish", v>>) /\ UNCHANGED there
\* what the helper proposes
PublishNext == /\ there /\ rel # {} /\ Cardinality(rel) < MaxReleases
               /\ rel' = rel \cup {Incremented(Greatest(rel))}
               /\ Change(<<"publish", Incremented(Greatest(rel))>>) /\ UNCHANGED there
Yank(v) ==
    there /\ v \in rel /\ rel' = rel \ {v} /\ Change(<<"yank", v>>) /\ UNCHANGED there
Remove ==
    there /\ there' = FALSE /\ rel' = {} /\ Change(<<"remove">>)
AskCurrent ==
    UNCHANGED state /\ op' = <<"current">> /\ res' = Current
AskNext(d) ==
    UNCHANGED state /\ op' = <<"next", d>> /\ res' = NextOne
\* nobody answers, or not as an index does
AskDown(k) ==
    UNCHANGED state /\ op' = <<"down", k>> /\ res' = <<"raises">>
Increment(v) ==
    rel = {} /\ ~there /\ UNCHANGED state /\ op' = <<"increment", v>> /\ res' = <<"version", Incremented(v)>>

Next ==
    \/ Register \/ PublishNext \/ Remove \/ AskCurrent \/ AskNext(0) \/ AskNext(1) \/ AskDown(0) \/ AskDown(1)
    \/ \E v \in Versions : Publish(v) \/ Increment(v)
    \/ \E v \in rel : Yank(v)

\* the releases in order, for printing
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET g == Greatest(S) IN Append(InOrder(S \ {g}), g)
Flat == <<InOrder(rel), IF there THEN 1 ELSE 0, steps>>
Emit == PrintT(ToString(<<"X", Flat, op', res', Flat'>>))

-----------------------------------------------------------------------------
\* C25
Newer == op # <<>> /\ op[1] = "next" /\ res[1] = "version" => \A v \in rel : Less(v, res[2])
=============================================================================
