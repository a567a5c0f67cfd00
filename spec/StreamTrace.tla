---------------------------- MODULE StreamTrace ----------------------------
(* Checks traces recorded from the real code against Stream.                  *)
(* TRACES names a JSON file with a list of traces [maxlen, auto, ev]; a trace *)
(* is accepted when some behaviour of Stream has exactly its events.          *)
EXTENDS Stream, TLC, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES)
Single == IOEnv.SINGLE = "1"

VARIABLES tid, l

tvars == <<vars, tid, l>>

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ StreamInit([maxlen |-> Traces[tid].maxlen, auto |-> Traces[tid].auto])

Ev == Traces[tid].ev[l]

\* exceptions a call may raise, by operation
Errors(op) ==
    CASE op \in {"read", "range", "head", "tail", "next", "iter", "sbiter"} ->
             {"ValueError", "IndexError", "StreamNotStartedError"}
      [] op \in {"mk", "attach"} -> {"StreamNotStartedError"}
      [] op = "sbnext" -> {"ValueError", "IndexError", "StreamNotStartedError"}
      [] op = "start" -> {"SourceError"}
      [] op = "join" -> {"AttributeError", "RuntimeError"}
      [] op = "drop" -> IF cfg.auto = 1 THEN {"RuntimeError"}
                        ELSE {"IndexError", "ValueError", "AttributeError", "RuntimeError",
                              "StreamNotStartedError"}
      [] op = "stop" -> {"AttributeError", "RuntimeError", "StreamNotStartedError"}
      [] OTHER -> {}

Visible ==
    LET e == Ev IN
    CASE e.k = "call"   -> Call(e.c, e)
      [] e.k = "ret"    -> /\ Ret(e.c, [t |-> e.t, v |-> e.v])
                           /\ e.t = "err" => e.e \in Errors(e.op)
      [] e.k = "open"   -> \E c \in DOMAIN pend : OpenCall(c)
      [] e.k = "opened" -> \E c \in DOMAIN pend : OpenRet(c, e.ok = 1)
      [] e.k = "infofail" -> InfoFails
      [] e.k = "read"   -> ReadCall
      [] e.k = "readr"  -> ReadRet(e.r, e.v)
      [] e.k = "close"  -> CloseCall
      [] e.k = "closed" -> CloseRet
      [] e.k = "q0"     -> UNCHANGED vars
      [] e.k = "q"      -> Quiet(e.left, e.reads) /\ UNCHANGED vars
      [] e.k = "end"    -> pend = <<>> /\ UNCHANGED vars
      [] OTHER          -> FALSE

\* every call is given the answer it will return (known from the trace)
AsReturned == \A c \in DOMAIN pend' :
    pend'[c].ph = "done" => pend'[c].op.x.t \in {"", pend'[c].res.t}
                            /\ (pend'[c].op.x.t # "" => pend'[c].res.v = pend'[c].op.x.v)

(* Silent steps that may as well come after the next event do come after it: only one of
   the equivalent orders is explored.  A step that stops a session does not move past a
   call, which remembers what had stopped by then; a drop makes room for the next read. *)
Waiting(ops) == \E c \in DOMAIN pend : pend[c].ph = "called" /\ pend[c].op.op \in ops

MayStop ==
    \/ Waiting({"stop", "start"})
    \/ own > 0 /\ ~Own.stopped /\ (Own.fail \/ Own.w = "got")

Later ==
    LET e == Ev IN
    CASE e.k = "ret"   -> e.c \in DOMAIN pend /\ pend[e.c].ph = "done"
      [] e.k = "call"  -> ~MayStop
      [] e.k = "readr" -> ~Waiting({"join"})
      [] e.k = "read"  -> own > 0 /\ Own.w = "ready" /\ ~Waiting({"join", "drop"})
      [] e.k = "q0"    -> TRUE
      [] OTHER         -> FALSE

Next ==
    /\ l <= Len(Traces[tid].ev)
    /\ \/ ~Later /\ Silent /\ l' = l
       \/ Visible /\ l' = l + 1
    /\ AsReturned
    /\ UNCHANGED tid

Spec == Init /\ [][Next]_tvars

\* reporting
Report ==
    /\ l > Len(Traces[tid].ev) => PrintT(<<"ACCEPTED", tid>>)
    /\ Single => (IF l > TLCGet(7) THEN TLCSet(7, l) /\ PrintT(<<"REACHED", l>>) ELSE TRUE)

ASSUME TLCSet(7, 0)

\* the properties, as invariants of every state a trace can lead through
TypeInv ==
    \A i \in 1..NS :
        /\ Increasing(sess[i].buf)
        /\ cfg.maxlen >= 0 => Len(sess[i].buf) <= cfg.maxlen
        /\ sess[i].late <= 1
=============================================================================
