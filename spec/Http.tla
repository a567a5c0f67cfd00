-------------------------------- MODULE Http --------------------------------
(* The HTTP source: one request per opening, the body in chunks, the count of *)
(* delivered bytes, closing.  The body is the bytes 1..len; with a limit k a  *)
(* read gives the next k of them, without one (0) all that is left.           *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Lens, Chunks, Methods, Formats, MaxOpens
\* Formats: how the server delimits the body "length" "chunked" "close"

VARIABLES
    conf,       \* <<method, body length, limit of a read, format>>
    open, pos,  \* bytes delivered of the current response
    reqs,       \* requests the server got
    total,      \* bytes delivered so far
    end,        \* the end of the body was reported
    op, res

state == <<conf, open, pos, reqs, total, end>>
vars == <<conf, open, pos, reqs, total, end, op, res>>

Init ==
    /\ conf \in {<<m, l, k, f>> : m \in Methods, l \in Lens, k \in Chunks, f \in Formats}
    /\ open = FALSE /\ pos = 0 /\ reqs = 0 /\ total = 0 /\ end = FALSE
    /\ op = <<>> /\ res = <<>>

Do(o, r) == op' = o /\ res' = r /\ UNCHANGED conf
L == conf[2]
K == conf[3]

Open ==
    /\ ~open /\ reqs < MaxOpens
    /\ open' = TRUE /\ pos' = 0 /\ reqs' = reqs + 1 /\ end' = FALSE
    /\ UNCHANGED total
    /\ Do(<<"open">>, <<"ok">>)

\* the server answers with an error: the caller gets it
OpenFails ==
    /\ ~open /\ reqs < MaxOpens
    /\ reqs' = reqs + 1
    /\ UNCHANGED <<open, pos, total, end>>
    /\ Do(<<"openfail">>, <<"raised">>)

Read ==
    /\ open
    /\ LET to == IF K = 0 \/ pos + K > L THEN L ELSE pos + K IN
       /\ pos' = to
       /\ total' = total + (to - pos)
       /\ end' = (to = pos)
       /\ Do(<<"read">>, IF to = pos THEN <<"none">> ELSE <<"data", pos, to>>)
    /\ UNCHANGED <<open, reqs>>

Close ==
    /\ open' = FALSE /\ pos' = 0 /\ end' = FALSE
    /\ UNCHANGED <<reqs, total>>
    /\ Do(<<"close">>, <<"ok">>)

Info ==
    /\ UNCHANGED <<open, pos, reqs, total, end>>
    /\ Do(<<"info">>, <<"n", total>>)

Next == Open \/ OpenFails \/ Read \/ Close \/ Info

B(b) == IF b THEN 1 ELSE 0
Flat == <<conf, B(open), pos, reqs, total, B(end)>>
Emit == PrintT(ToString(<<"X", Flat, op', res', Flat'>>))
-----------------------------------------------------------------------------
\* C22
InOrder == res # <<>> /\ res[1] = "data" => res[3] = pos /\ res[2] < res[3] /\ (K > 0 => res[3] - res[2] <= K)
NoneOnlyAtEnd == res = <<"none">> => pos = L
Counted == [][total' - total = (IF res' # <<>> /\ res'[1] = "data" THEN res'[3] - res'[2] ELSE 0)]_vars
OneRequestPerOpening == [][reqs' # reqs => op'[1] \in {"open", "openfail"} /\ reqs' = reqs + 1]_vars
=============================================================================
