------------------------------ MODULE MCStream ------------------------------
(* Stream closed with a small environment: a source that may deliver any key, *)
(* nothing, garbage or an exception, and clients that may call anything of a  *)
(* chosen repertoire.  History variables state the listed properties without  *)
(* referring to how Stream maintains its buffers.                             *)
EXTENDS Stream, TLC

CONSTANTS
    MaxLens, Autos,     \* configurations (99: no bound)
    Keys, Outcomes,     \* what the source may deliver ("item" "none" "raise")
    OpenFails,          \* may opening fail
    Reads,              \* how often it may be read
    Clients,            \* client ids
    Quota,              \* calls per client
    Starts,             \* starts in all
    Begun,              \* begin with a running stream and one reader per client
    Repertoire          \* what clients may call: a set of names

VARIABLES
    hist,   \* per session: every item appended
    lost,   \* per session: items dropped on demand
    taken,  \* per reader: what its calls returned without peeking, since it was made
    quota,  \* calls left per client
    nreads, \* reads left
    ser     \* next serial number

mvars == <<vars, hist, lost, taken, quota, nreads, ser>>

X == [t |-> "", v |-> <<>>]
RdId(c) == c + 1       \* every client has one reader

Ops(c, name) ==
    LET r == RdId(c) IN
    CASE name = "start" -> {[op |-> "start"]}
      [] name = "stop" -> {[op |-> "stop"]}
      [] name = "isrun" -> {[op |-> "isrun"]}
      [] name = "sinfo" -> {[op |-> "sinfo"]}
      [] name = "drop" -> {[op |-> "drop", n |-> n] : n \in 1..2}
      [] name = "mk" -> {[op |-> "mk", r |-> r, n |-> 1, peek |-> 0, ign |-> 0, strict |-> 0]}
      [] name = "mk2" -> {[op |-> "mk", r |-> r, n |-> 2, peek |-> 0, ign |-> 0, strict |-> 1]}
      [] name = "attach" -> {[op |-> "attach", r |-> r]}
      [] name = "read" -> {[op |-> "read", r |-> r, n |-> n, peek |-> 2, ign |-> 2, strict |-> 2, blk |-> 0] : n \in {0, 2}}
      [] name = "peek" -> {[op |-> "read", r |-> r, n |-> 1, peek |-> 1, ign |-> 1, strict |-> 2, blk |-> 0]}
      [] name = "block" -> {[op |-> "read", r |-> r, n |-> 0, peek |-> 2, ign |-> 2, strict |-> 2, blk |-> 1]}
      [] name = "all" -> {[op |-> "range", r |-> r, lo |-> -9, hi |-> 99, step |-> 1, peek |-> 1, ign |-> 1, new |-> 0, le |-> 0, ge |-> 0]}
      [] name = "range" -> {[op |-> "range", r |-> r, lo |-> lo, hi |-> lo + 1, step |-> 1, peek |-> 0, ign |-> 1, new |-> 1, le |-> le, ge |-> 0] : lo \in 0..1, le \in 0..1}
      [] name = "tail" -> {[op |-> "tail", r |-> r, peek |-> 0, ign |-> 1, new |-> n] : n \in 0..1}
      [] name = "head" -> {[op |-> "head", r |-> r, peek |-> 1]}
      [] name = "next" -> {[op |-> "next", r |-> r]}
      [] name = "iter" -> {[op |-> "iter", r |-> r]}
      [] name = "sbnext" -> {[op |-> "sbnext"]}
      [] name = "stopped" -> {[op |-> "stopped", r |-> r]}
      [] name = "info" -> {[op |-> "info", r |-> r]}
      [] OTHER -> {}

NeedsReader == {"attach", "read", "peek", "block", "all", "range", "tail", "head", "next", "iter", "stopped", "info"}

BegunInit(c) ==
    /\ cfg = c
    /\ src = "open" /\ opens = 1 /\ own = 1 /\ cur = 1 /\ starter = NoClient
    /\ sess = <<[NewSession EXCEPT !.w = "ready", !.oc = 1]>>
    /\ readers = [r \in {RdId(d) : d \in Clients} |->
                    NewReader([n |-> 1, peek |-> 0, ign |-> 0, strict |-> 0], 1)]
    /\ pend = <<>>

MCInit ==
    /\ \E m \in MaxLens, a \in Autos :
         LET c == [maxlen |-> IF m = 99 THEN -1 ELSE m, auto |-> a] IN
         IF Begun THEN BegunInit(c) ELSE StreamInit(c)
    /\ hist = <<>>
    /\ lost = <<>>
    /\ taken = IF Begun THEN [r \in {RdId(d) : d \in Clients} |-> <<>>] ELSE <<>>
    /\ quota = [c \in Clients |-> Quota]
    /\ nreads = Reads
    /\ ser = 1

NoGhost == UNCHANGED <<hist, lost, taken>>
Env == UNCHANGED <<quota, nreads, ser>>

Invoke(c) ==
    /\ quota[c] > 0
    /\ \E name \in Repertoire :
         /\ name \in NeedsReader => RdId(c) \in DOMAIN readers
         /\ name = "start" => NS + Cardinality({d \in DOMAIN pend : pend[d].op.op = "start" /\ pend[d].ph = "called"}) < Starts
         /\ \E o \in Ops(c, name) : Call(c, Put(o, "x", X))
    /\ quota' = [quota EXCEPT ![c] = @ - 1]
    /\ UNCHANGED <<nreads, ser>> /\ NoGhost

Return(c) == c \in DOMAIN pend /\ pend[c].ph = "done" /\ Ret(c, pend[c].res) /\ Env /\ NoGhost

SourceStep ==
    \/ \E c \in Clients : OpenCall(c) /\ Env /\ NoGhost
    \/ \E c \in Clients : OpenRet(c, TRUE) /\ Env /\ NoGhost
    \/ OpenFails /\ \E c \in Clients : OpenRet(c, FALSE) /\ Env /\ NoGhost
    \/ OpenFails /\ InfoFails /\ Env /\ NoGhost
    \/ nreads > 0 /\ ReadCall /\ nreads' = nreads - 1 /\ UNCHANGED <<quota, ser>> /\ NoGhost
    \/ \E r \in Outcomes :
         /\ ReadRet(r, <<>>) /\ r # "item"
         /\ Env /\ NoGhost
    \/ /\ "item" \in Outcomes
       /\ \E k \in Keys : ReadRet("item", <<<<k, ser>>>>)
       /\ ser' = ser + 1 /\ UNCHANGED <<quota, nreads>> /\ NoGhost
    \/ CloseCall /\ Env /\ NoGhost
    \/ CloseRet /\ Env /\ NoGhost

H(f, i) == IF i \in DOMAIN f THEN f[i] ELSE <<>>

Appending ==
    /\ AppendItem
    /\ hist' = IF Admissible(Own.buf, Own.inf[1]) THEN Put(hist, own, Append(H(hist, own), Own.inf[1])) ELSE hist
    /\ UNCHANGED <<lost, taken>> /\ Env

Seen(c) ==     \* what the call of c took effect with
    LET op == pend[c].op IN
    IF op.op \in {"read", "range", "tail", "next", "iter"} /\ pend'[c].ph = "done" /\ pend'[c].res.t \in {"item", "list"}
       /\ readers'[op.r].cur # readers[op.r].cur
    THEN Put(taken, op.r, Append(H(taken, op.r), [op |-> op.op, v |-> pend'[c].res.v, s |-> readers[op.r].sess]))
    ELSE IF op.op = "mk" /\ pend'[c].res.t = "ok" THEN Put(taken, op.r, <<>>)
    ELSE taken

Effect(c) ==
    /\ Lin(c)
    /\ taken' = Seen(c)
    /\ lost' = IF pend[c].op.op = "drop" /\ \E s \in 1..NS : sess'[s].buf # sess[s].buf
               THEN LET s == CHOOSE s \in 1..NS : sess'[s].buf # sess[s].buf IN
                    Put(lost, s, H(lost, s) \o SubSeq(sess[s].buf, 1, Len(sess[s].buf) - Len(sess'[s].buf)))
               ELSE lost
    /\ UNCHANGED hist /\ Env

Internal == SourceStep \/ Appending \/ (FailStop /\ Env /\ NoGhost)
            \/ \E c \in Clients : c \in DOMAIN pend /\ (Effect(c) \/ Return(c))

MCNext == Internal \/ \E c \in Clients : Invoke(c)

MCSpec == MCInit /\ [][MCNext]_mvars
Fair == /\ WF_mvars(SourceStep) /\ WF_mvars(Appending) /\ WF_mvars(FailStop /\ Env /\ NoGhost)
        /\ \A c \in Clients : WF_mvars(c \in DOMAIN pend /\ pend[c].op.op # "start" /\ (Effect(c) \/ Return(c)))
        /\ \A c \in Clients : SF_mvars(c \in DOMAIN pend /\ pend[c].op.op = "start" /\ (Effect(c) \/ Return(c)))
FairSpec == MCSpec /\ Fair

-----------------------------------------------------------------------------
(* The properties *)

Sessions == 1..NS

LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

\* C01: with automatic dropping the buffer is the window of the last maxlen items
Window == cfg.auto = 1 => \A s \in Sessions :
    sess[s].buf = (IF cfg.maxlen < 0 THEN H(hist, s) ELSE LastN(H(hist, s), cfg.maxlen))

\* C02: without, nothing is lost but what was dropped on demand, and it is bounded
Manual == cfg.auto = 0 => \A s \in Sessions :
    /\ H(lost, s) \o sess[s].buf = H(hist, s)
    /\ cfg.maxlen >= 0 => Len(sess[s].buf) <= cfg.maxlen

\* C03: nothing out of order is ever visible
Ordered == \A s \in Sessions : Increasing(sess[s].buf)

\* C04: a failed source: no further item, the session ends, the source is closed
FailedEnds == \A s \in Sessions : sess[s].fail => sess[s].w \in {"failed", "closing", "done", "dead"}
NotRunningUnlessOpen ==
    (starter = NoClient /\ cur # 0) =>
        /\ cur = NS
        /\ ~sess[cur].stopped => src # "closed" /\ own = cur

\* C05: at most one session has the source, in order; at most one read after the stop
OneOwner == \A s \in Sessions : s # own => sess[s].w \in {"new", "done", "dead"}
LateReads == \A s \in Sessions : sess[s].late <= 1
OpenClosed == (src = "closed" /\ own > 0) => sess[own].w \in {"done", "dead"}

\* C06: what a reader returns was appended in its own session
Isolated == \A r \in DOMAIN taken : \A i \in DOMAIN taken[r] :
    LET e == taken[r][i] IN \A j \in DOMAIN e.v :
        \E k \in DOMAIN H(hist, e.s) : H(hist, e.s)[k] = e.v[j]

\* C07: reading (read, next, iteration) by one reader is in order, without repetition, and
\* skips only items that are no longer there
SeqOps == {"read", "next", "iter"}
Flat(es) == LET RECURSIVE F(_) F(i) == IF i > Len(es) THEN <<>> ELSE es[i].v \o F(i + 1) IN F(1)
Sequential == \A r \in DOMAIN taken :
    (\A i \in DOMAIN taken[r] : taken[r][i].op \in SeqOps /\ taken[r][i].s = taken[r][1].s) =>
        LET f == Flat(taken[r]) h == IF taken[r] = <<>> THEN <<>> ELSE H(hist, taken[r][1].s) IN
        /\ Increasing(f)
        /\ (cfg.maxlen < 0 /\ H(lost, IF taken[r] = <<>> THEN 0 ELSE taken[r][1].s) = <<>>) => f = SubSeq(h, 1, Len(f))

\* C08: the cursor is the newest item handed out
CursorIsLast == \A r \in DOMAIN taken :
    (taken[r] # <<>> /\ r \in DOMAIN readers) => readers[r].cur = <<LastOf(LastOf(taken[r]).v)>>

\* C11: iteration ends, and a blocking read gives up (C12), only when the stream is stopped;
\* before the end everything appended before was delivered (LinIter looks at the buffer and
\* the signal at once)
EndsOnlyStopped == \A c \in DOMAIN pend :
    LET op == pend[c].op IN
    /\ (pend[c].ph = "done" /\ op.op = "iter" /\ pend[c].res.t = "stop") =>
            /\ sess[readers[op.r].sess].stopped
    /\ (pend[c].ph = "done" /\ op.op = "read" /\ op.blk = 1 /\ pend[c].res.t = "none") =>
            sess[readers[op.r].sess].stopped

\* C16: whenever nothing more happens by itself, only calls that wait for data of a running
\* stream (or on a source with nothing to deliver) are left, and Quiet holds
NothingStuck == ~ENABLED Internal => Quiet(IF nreads = 0 THEN 0 ELSE 1, 1)

\* C16, C04, C05 as liveness
EveryCallReturns == \A c \in Clients :
    (c \in DOMAIN pend /\ ~(pend[c].op.op \in {"iter", "sbiter"} \/ (pend[c].op.op = "read" /\ pend[c].op.blk = 1)))
        ~> (c \notin DOMAIN pend)
StoppedEnds == \A s \in 1..Starts :
    (s \in Sessions /\ sess[s].stopped /\ own = s) ~> (s \in Sessions /\ sess[s].w \in {"done", "dead"})
FailStops == \A s \in 1..Starts : (s \in Sessions /\ sess[s].fail) ~> (s \in Sessions /\ sess[s].stopped)
=============================================================================
