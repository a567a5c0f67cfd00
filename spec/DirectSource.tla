--------------------------- MODULE DirectSource ---------------------------
(* A source used directly: iterated over, entered and left as a context,      *)
(* asked for the time.  Values a source reads: 0 None, 1 a falsy value,       *)
(* 2 another value, 3 a value that a source with a validity test of its own   *)
(* does not accept.  Time passes in ticks, one tick per wait of an iteration. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxLen, MaxOpens, MaxAge, Classes
\* "reader" a source reader   "quick" a quick one   "valid" a quick one with a validity test
\* "nodata" ... that also overrides what happens without data   "stream" a stream source

VARIABLES
    cls,
    script,         \* what the source will read
    open,           \* entered
    opens, closes,  \* calls the source got
    age,            \* ticks since it was last opened
    ended,          \* told that no more data comes (stream source)
    op, res

state == <<cls, script, open, opens, closes, age, ended>>
vars == <<cls, script, open, opens, closes, age, ended, op, res>>

Context == cls # "stream"
B(b) == IF b THEN 1 ELSE 0

Init ==
    /\ cls \in Classes
    /\ script \in UNION {[1..m -> 0..3] : m \in 0..MaxLen}
    /\ open = (cls = "stream")
    /\ opens = 0 /\ closes = 0 /\ age = 0
    /\ ended = FALSE
    /\ op = <<>> /\ res = <<>>

Do(o, r) == op' = o /\ res' = r /\ UNCHANGED cls

Valid(v) == IF cls \in {"valid", "nodata"} THEN v \in {1, 2} ELSE v # 0
Good == {i \in DOMAIN script : Valid(script[i])}
Next1 == CHOOSE i \in Good : \A j \in Good : i <= j

\* the next value of an iteration: the first valid one, after one wait per invalid one
Iterate ==
    /\ open
    /\ \/ /\ Good # {} /\ ~ended
          /\ age + Next1 - 1 <= MaxAge
          /\ script' = SubSeq(script, Next1 + 1, Len(script))
          /\ age' = age + Next1 - 1
          /\ Do(<<"next">>, <<"item", script[Next1], Next1 - 1>>)
       \* ended: what can be read at once, else the end
       \/ /\ ended
          /\ script' = IF script = <<>> THEN script ELSE Tail(script)
          /\ UNCHANGED age
          /\ Do(<<"next">>, IF script # <<>> /\ Valid(Head(script)) THEN <<"item", Head(script), 0>> ELSE <<"end">>)
    /\ UNCHANGED <<open, opens, closes, ended>>

Finish ==
    /\ cls = "stream" /\ ~ended
    /\ ended' = TRUE
    /\ UNCHANGED <<script, open, opens, closes, age>>
    /\ Do(<<"finish">>, <<"ok">>)

Enter ==
    /\ Context /\ ~open /\ opens < MaxOpens
    /\ open' = TRUE /\ opens' = opens + 1 /\ age' = 0
    /\ UNCHANGED <<script, closes, ended>>
    /\ Do(<<"enter">>, <<"self">>)

EnterFails ==
    /\ cls = "reader" /\ ~open /\ opens < MaxOpens
    /\ opens' = opens + 1
    /\ UNCHANGED <<script, open, closes, age, ended>>
    /\ Do(<<"enterfail">>, <<"raised">>)

Leave(how) ==
    /\ Context /\ open
    /\ open' = FALSE /\ closes' = closes + 1
    /\ UNCHANGED <<script, opens, age, ended>>
    /\ Do(<<"leave", how>>, IF how = "exc" THEN <<"raised">> ELSE <<"ok">>)

Tick ==
    /\ age < MaxAge
    /\ age' = age + 1
    /\ UNCHANGED <<script, open, opens, closes, ended>>
    /\ Do(<<"tick">>, <<"ok">>)

Closed ==
    /\ Context
    /\ UNCHANGED <<script, open, opens, closes, age, ended>>
    /\ Do(<<"closed">>, <<"bool", B(~open)>>)

\* the helper for time stamps, of the class and of an instance: the time now
Stamp ==
    /\ UNCHANGED <<script, open, opens, closes, age, ended>>
    /\ Do(<<"stamp">>, <<"now">>)

\* a quick source says when it was opened
OpenTime ==
    /\ cls \in {"quick", "valid", "nodata"} /\ opens > 0
    /\ UNCHANGED <<script, open, opens, closes, age, ended>>
    /\ Do(<<"opentime">>, <<"ago", age>>)

Next ==
    \/ Iterate \/ Finish \/ Enter \/ EnterFails \/ Tick \/ Closed \/ Stamp \/ OpenTime
    \/ \E how \in {"ok", "exc"} : Leave(how)

Flat == <<cls, script, B(open), opens, closes, age, B(ended)>>
Emit == PrintT(ToString(<<"X", Flat, op', res', Flat'>>))

-----------------------------------------------------------------------------
\* C20
Balanced == Context => closes <= opens /\ (open => opens > closes)
NothingSkipped == [][script' # script => \A i \in 1..(Len(script) - Len(script') - 1) : ~Valid(script[i])]_vars
OnlyValid == op = <<"next">> /\ res[1] = "item" => Valid(res[2])
=============================================================================
