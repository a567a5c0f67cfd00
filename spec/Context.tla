------------------------------ MODULE Context ------------------------------
(* A contextualized callable: what is wrapped, what the enter and exit        *)
(* functions do, calls inside and outside of nested blocks.                   *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxDepth, MaxCalls, MaxExits

VARIABLES
    kind,           \* what is wrapped: "func" "object" "nested" (contextualized already) "method" (forwarding to the instance)
    e, x,           \* enter: "dflt" "give" "raise"; exit: "dflt" "keep" "drop" (suppresses) "raise"
    depth,          \* blocks entered
    calls, enters, exits,
    op, res

state == <<kind, e, x, depth, calls, enters, exits>>
vars == <<kind, e, x, depth, calls, enters, exits, op, res>>

Init ==
    /\ kind \in {"func", "object", "nested", "method"}
    /\ e \in (IF kind = "method" THEN {"give", "raise"} ELSE {"dflt", "give", "raise"})
    /\ x \in (IF kind = "method" THEN {"keep", "drop", "raise"} ELSE {"dflt", "keep", "drop", "raise"})
    /\ depth = 0 /\ calls = 0 /\ enters = 0 /\ exits = 0
    /\ op = <<>> /\ res = <<>>

Do(o, r) == op' = o /\ res' = r /\ UNCHANGED <<kind, e, x>>

Call(how) ==
    /\ calls < MaxCalls
    /\ calls' = calls + 1
    /\ UNCHANGED <<depth, enters, exits>>
    /\ Do(<<"call", how>>, IF how = "fail" THEN <<"raised">> ELSE <<"value">>)

\* an attribute of what is wrapped, counting its calls
Attribute ==
    /\ UNCHANGED <<depth, calls, enters, exits>>
    /\ Do(<<"attr">>, <<"n", calls>>)

Missing ==
    /\ UNCHANGED <<depth, calls, enters, exits>>
    /\ Do(<<"missing">>, <<"noattr">>)

Enter ==
    /\ depth < MaxDepth /\ exits < MaxExits
    /\ depth' = IF e = "raise" THEN depth ELSE depth + 1
    /\ enters' = IF e = "dflt" THEN enters ELSE enters + 1
    /\ enters' <= MaxExits + MaxDepth
    /\ UNCHANGED <<calls, exits>>
    /\ Do(<<"enter">>, CASE e = "dflt" -> <<"wrapped">> [] e = "give" -> <<"given">> [] e = "raise" -> <<"raised">>)

Leave(how) ==
    /\ depth > 0
    /\ depth' = depth - 1
    /\ exits' = IF x = "dflt" THEN exits ELSE exits + 1
    /\ UNCHANGED <<calls, enters>>
    /\ Do(<<"leave", how>>,
          IF x = "raise" THEN <<"exit raised">>
          ELSE IF how = "ok" THEN <<"left">>
          ELSE IF x = "drop" THEN <<"suppressed">> ELSE <<"body raised">>)

\* constructing another: is there something callable, how many positional arguments do
\* enter and exit take (9: not callable), do they take any number
Make(c, en, ev, xn, xv) ==
    /\ depth = 0 /\ calls = 0 /\ enters = 0
    /\ UNCHANGED <<depth, calls, enters, exits>>
    /\ Do(<<"make", c, en, ev, xn, xv>>,
          IF c = 1 /\ en # 9 /\ xn # 9 /\ (en >= 1 \/ ev = 1) /\ (xn >= 4 \/ xv = 1) THEN <<"ok">> ELSE <<"refused">>)

Next ==
    \/ \E how \in {"ok", "fail"} : Call(how)
    \/ Attribute \/ Missing \/ Enter
    \/ \E how \in {"ok", "exc"} : Leave(how)
    \/ \E c, ev, xv \in {0, 1}, en \in {0, 1, 9}, xn \in {0, 1, 2, 3, 4, 9} : Make(c, en, ev, xn, xv)

Flat == <<kind, e, x, depth, calls, enters, exits>>
Emit == PrintT(ToString(<<"X", Flat, op', res', Flat'>>))
-----------------------------------------------------------------------------
\* C21
Balanced == /\ e = "give" /\ x # "dflt" => enters = exits + depth
            /\ e = "raise" => depth = 0
OnlyExitSuppresses == op = <<"leave", "exc">> /\ res = <<"suppressed">> => x = "drop"
=============================================================================
