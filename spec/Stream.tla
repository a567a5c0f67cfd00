------------------------------- MODULE Stream -------------------------------
(* A stream buffer, its source, its reading thread, its sessions, its readers *)
(* and any number of concurrent client calls.                                 *)
(*                                                                            *)
(* Visible steps are the calls the source receives (and their returns) and    *)
(* the calls and returns of clients.  Every client call takes effect in one   *)
(* silent step (Lin...) between its call and its return; the other silent     *)
(* steps are the reading thread's append and its stop after a failure.        *)
EXTENDS ReaderOps

NoClient == -1          \* no client id (client ids are integers >= 0)

VARIABLES
    cfg,        \* [maxlen, auto]: maxlen -1 is unbounded
    src,        \* the source: "closed" "opening" "open" "reading" "closing"
    opens,      \* how often it was opened
    sess,       \* sequence of sessions, one per start
    own,        \* the session that opened the source last
    cur,        \* the newest successfully started session, 0 if none (any more)
    starter,    \* the client whose start is in progress
    readers,    \* readers made so far (a function)
    pend        \* client calls under way (a function)

vars == <<cfg, src, opens, sess, own, cur, starter, readers, pend>>

NewSession == [
    buf |-> <<>>,       \* what is buffered
    stopped |-> FALSE,  \* the stop signal
    w |-> "new",        \* reading thread: new ready reading got failed closing done dead
    inf |-> <<>>,       \* item read but not yet appended
    fail |-> FALSE,     \* the source failed or delivered something inadmissible
    late |-> 0,         \* reads begun after the stop signal
    oc |-> 0,           \* which opening of the source it has (its source info)
    hid |-> <<>>,       \* cursor of the reader behind next(stream_buffer)
    k |-> 0]            \* items delivered

StreamInit(c) ==
    /\ cfg = c
    /\ src = "closed"
    /\ opens = 0
    /\ sess = <<>>
    /\ own = 0
    /\ cur = 0
    /\ starter = NoClient
    /\ readers = <<>>
    /\ pend = <<>>

NS == Len(sess)
Own == sess[own]
SetOwn(r) == sess' = [sess EXCEPT ![own] = r]

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Full(s) == cfg.maxlen >= 0 /\ Len(s.buf) >= cfg.maxlen

-----------------------------------------------------------------------------
(* The source and the reading thread *)

OpenCall(c) ==
    /\ c = starter
    /\ c \in DOMAIN pend
    /\ pend[c].ph = "begun"
    /\ src = "closed"
    /\ \A i \in 1..(NS - 1) : sess[i].w \in {"done", "dead"}
    /\ src' = "opening"
    /\ opens' = opens + 1
    /\ own' = NS
    /\ sess' = [sess EXCEPT ![NS].oc = opens + 1]
    /\ pend' = [pend EXCEPT ![c].ph = "opening"]
    /\ UNCHANGED <<cfg, cur, starter, readers>>

\* a start that failed: nothing is running, no readers can be made
StartFails(c) ==
    /\ SetOwn([Own EXCEPT !.w = "dead", !.stopped = TRUE])
    /\ pend' = [pend EXCEPT ![c].ph = "done", ![c].res = [t |-> "err", v |-> <<>>]]
    /\ cur' = 0
    /\ starter' = NoClient

OpenRet(c, ok) ==
    /\ src = "opening"
    /\ c = starter
    /\ pend[c].ph = "opening"
    /\ IF ok
       THEN /\ src' = "open"
            /\ SetOwn([Own EXCEPT !.w = "ready"])
            /\ pend' = [pend EXCEPT ![c].ph = "opened"]
            /\ UNCHANGED <<cur, starter>>
       ELSE /\ src' = "closed"
            /\ StartFails(c)
    /\ UNCHANGED <<cfg, own, opens, readers>>

\* the source's info raises while starting: the source is closed and start fails
InfoFails ==
    /\ starter # NoClient
    /\ pend[starter].ph = "opened"
    /\ Own.w = "ready" /\ src = "open"
    /\ pend' = [pend EXCEPT ![starter].ph = "undo"]
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter, readers>>

ReadCall ==
    /\ src = "open"
    /\ Own.w = "ready"
    /\ (starter # NoClient /\ own = NS) => pend[starter].ph = "opened"
    /\ ~Own.stopped \/ Own.late = 0
    /\ cfg.auto = 1 \/ ~Full(Own)
    /\ src' = "reading"
    /\ SetOwn([Own EXCEPT !.w = "reading", !.late = IF Own.stopped THEN 1 ELSE 0])
    /\ UNCHANGED <<cfg, own, opens, cur, starter, readers, pend>>

ReadRet(r, v) ==
    /\ src = "reading"
    /\ Own.w = "reading"
    /\ src' = "open"
    /\ SetOwn(CASE r = "item" -> [Own EXCEPT !.w = "got", !.inf = v, !.k = Own.k + 1]
                 [] r = "none" -> [Own EXCEPT !.w = "ready"]
                 [] OTHER      -> [Own EXCEPT !.w = "failed", !.fail = TRUE])
    /\ UNCHANGED <<cfg, own, opens, cur, starter, readers, pend>>

Admissible(buf, item) == buf = <<>> \/ Key(LastOf(buf)) < Key(item)

Evict(buf) == IF cfg.maxlen >= 0 /\ Len(buf) > cfg.maxlen THEN Tail(buf) ELSE buf

AppendItem ==      \* silent
    /\ own > 0
    /\ Own.w = "got"
    /\ SetOwn(IF Admissible(Own.buf, Own.inf[1])
               THEN [Own EXCEPT !.w = "ready", !.inf = <<>>,
                                 !.buf = Evict(Append(Own.buf, Own.inf[1]))]
               ELSE [Own EXCEPT !.w = "failed", !.inf = <<>>, !.fail = TRUE])
    /\ UNCHANGED <<cfg, own, src, opens, cur, starter, readers, pend>>

FailStop ==        \* silent
    /\ own > 0
    /\ Own.fail /\ ~Own.stopped
    /\ SetOwn([Own EXCEPT !.stopped = TRUE])
    /\ UNCHANGED <<cfg, own, src, opens, cur, starter, readers, pend>>

CloseCall ==
    /\ src = "open"
    /\ src' = "closing"
    /\ IF starter # NoClient /\ pend[starter].ph = "undo"
       THEN /\ pend' = [pend EXCEPT ![starter].ph = "undoing"]
            /\ UNCHANGED sess
       ELSE /\ Own.w \in {"failed", "ready"} /\ Own.stopped
            /\ SetOwn([Own EXCEPT !.w = "closing"])
            /\ UNCHANGED pend
    /\ UNCHANGED <<cfg, own, opens, cur, starter, readers>>

CloseRet ==
    /\ src = "closing"
    /\ src' = "closed"
    /\ IF starter # NoClient /\ pend[starter].ph = "undoing"
       THEN StartFails(starter)
       ELSE /\ SetOwn([Own EXCEPT !.w = "done"])
            /\ UNCHANGED <<cur, starter, pend>>
    /\ UNCHANGED <<cfg, own, opens, readers>>

-----------------------------------------------------------------------------
(* Client calls: the call, the instant it takes effect, the return *)

Call(c, op) ==
    /\ c \notin DOMAIN pend
    /\ pend' = Put(pend, c, [op |-> op, ph |-> "called", res |-> [t |-> "", v |-> <<>>],
                             sc |-> {i \in 1..NS : sess[i].stopped}])
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter, readers>>

Ret(c, res) ==
    /\ c \in DOMAIN pend
    /\ pend[c].ph = "done"
    /\ pend[c].res = res
    /\ pend' = Del(pend, c)
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter, readers>>

Done(c, res) == pend' = [pend EXCEPT ![c].ph = "done", ![c].res = res]

R(t, v) == [t |-> t, v |-> v]
Bool(b) == R("bool", <<<<IF b THEN 1 ELSE 0, 0>>>>)
InfoOf(s) == IF s = 0 THEN R("none", <<>>) ELSE R("info", <<<<sess[s].oc, 0>>>>)

Called(c, name) == c \in DOMAIN pend /\ pend[c].ph = "called" /\ pend[c].op.op = name

(* start *)
StartBegin(c) ==
    /\ Called(c, "start")
    /\ starter = NoClient
    /\ starter' = c
    /\ sess' = Append([i \in 1..NS |-> IF i = NS THEN [sess[i] EXCEPT !.stopped = TRUE]
                                       ELSE sess[i]],
                      NewSession)
    /\ pend' = [pend EXCEPT ![c].ph = "begun"]
    /\ UNCHANGED <<cfg, own, src, opens, cur, readers>>

StartDone(c) ==
    /\ c = starter
    /\ pend[c].ph = "opened"
    /\ cur' = NS
    /\ starter' = NoClient
    /\ Done(c, R("ok", <<>>))
    /\ UNCHANGED <<cfg, own, src, opens, sess, readers>>

(* stop: while a start is in progress it meets the old or the new session *)
LinStop(c) ==
    /\ Called(c, "stop")
    /\ IF NS = 0
       THEN UNCHANGED sess /\ (Done(c, R("ok", <<>>)) \/ Done(c, R("err", <<>>)))
       ELSE /\ \E t \in (IF starter = NoClient THEN {NS} ELSE {NS, NS - 1} \ {0}) :
                   sess' = [sess EXCEPT ![t].stopped = TRUE]
            /\ Done(c, R("ok", <<>>))
    /\ UNCHANGED <<cfg, own, src, opens, cur, starter, readers>>

(* the state queries *)
LinIsRun(c) ==
    /\ Called(c, "isrun")
    /\ Done(c, Bool(starter = NoClient /\ cur # 0 /\ ~sess[cur].stopped))   \* not yet while it starts
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter, readers>>

LinSInfo(c) ==
    /\ Called(c, "sinfo")
    /\ \E s \in (IF starter = NoClient THEN {cur} ELSE {0, cur, NS}) : Done(c, InfoOf(s))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter, readers>>

(* making and attaching readers *)
NewReader(op, s) == [sess |-> s, cur |-> <<>>, n |-> op.n, peek |-> op.peek = 1,
                     ign |-> op.ign = 1, strict |-> op.strict = 1]

LinMk(c) ==
    /\ Called(c, "mk")
    /\ starter = NoClient
    /\ IF cur = 0
       THEN Done(c, R("err", <<>>)) /\ UNCHANGED readers
       ELSE /\ readers' = Put(readers, pend[c].op.r, NewReader(pend[c].op, cur))
            /\ Done(c, R("ok", <<>>))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

LinAttach(c) ==
    /\ Called(c, "attach")
    /\ starter = NoClient
    /\ IF cur = 0
       THEN Done(c, R("err", <<>>)) /\ UNCHANGED readers
       ELSE /\ readers' = [readers EXCEPT ![pend[c].op.r].sess = cur]
            /\ Done(c, R("ok", <<>>))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

(* dropping *)
LinDrop(c) ==
    /\ Called(c, "drop")
    /\ LET n == IF pend[c].op.n < 0 THEN 0 ELSE pend[c].op.n IN
       IF cfg.auto = 1
       THEN UNCHANGED sess /\ Done(c, R("err", <<>>))
       ELSE \E t \in (IF starter = NoClient THEN {cur} ELSE {0, cur, NS}) :
              IF t = 0 THEN UNCHANGED sess /\ Done(c, R("err", <<>>))
              ELSE IF n <= Len(sess[t].buf)
              THEN /\ sess' = [sess EXCEPT ![t].buf = SubSeq(@, n + 1, Len(@))]
                   /\ Done(c, R("ok", <<>>))
              ELSE /\ sess' = [sess EXCEPT ![t].buf = <<>>]
                   /\ Done(c, R("err", <<>>))
    /\ UNCHANGED <<cfg, own, src, opens, cur, starter, readers>>

(* reading *)
Opt(x, dflt) == IF x = 2 THEN dflt ELSE x = 1

SetCur(r, o) == readers' = [readers EXCEPT ![r].cur = o.cur]

LinRead(c) ==
    /\ Called(c, "read")
    /\ LET op == pend[c].op
           rd == readers[op.r]
           s  == sess[rd.sess]
           ign == op.blk = 1 \/ Opt(op.ign, rd.ign)
           o  == ReadOp(s.buf, rd.cur, IF op.n = 0 THEN rd.n ELSE op.n,
                        Opt(op.peek, rd.peek), Opt(op.strict, rd.strict))
       IN /\ (op.blk = 1 /\ o.t = "sig") => s.stopped
          /\ SetCur(op.r, o)
          /\ Done(c, Answer(o, ign))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

LinRange(c) ==
    /\ Called(c, "range")
    /\ LET op == pend[c].op
           rd == readers[op.r]
           o  == RangeOp(sess[rd.sess].buf, rd.cur, op.lo, op.hi, op.step, op.peek = 1,
                         op.new = 1, op.le = 1, op.ge = 1)
       IN SetCur(op.r, o) /\ Done(c, Answer(o, Opt(op.ign, rd.ign)))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

LinHead(c) ==
    /\ Called(c, "head")
    /\ LET op == pend[c].op
           rd == readers[op.r]
           o  == HeadOp(sess[rd.sess].buf, rd.cur, op.peek = 1)
       IN SetCur(op.r, o) /\ Done(c, Answer(o, FALSE))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

LinTail(c) ==
    /\ Called(c, "tail")
    /\ LET op == pend[c].op
           rd == readers[op.r]
           o  == TailOp(sess[rd.sess].buf, rd.cur, op.peek = 1, op.new = 1)
       IN SetCur(op.r, o) /\ Done(c, Answer(o, op.ign = 1))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

\* next(reader): None only if the stream was running when asked, end only if stopped now
NextAnswers(c, o, s) ==
    IF o.t # "sig" THEN {Answer(o, TRUE)}
    ELSE (IF sess[s].stopped THEN {R("stop", <<>>)} ELSE {})
         \cup (IF s \notin pend[c].sc THEN {R("none", <<>>)} ELSE {})

LinNext(c) ==
    /\ Called(c, "next")
    /\ LET rd == readers[pend[c].op.r]
           o  == ReadOp(sess[rd.sess].buf, rd.cur, rd.n, rd.peek, rd.strict)
       IN /\ SetCur(pend[c].op.r, o)
          /\ \E a \in NextAnswers(c, o, rd.sess) : Done(c, a)
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

\* next(stream_buffer)
LinSbNext(c) ==
    /\ Called(c, "sbnext")
    /\ IF cur = 0
       THEN UNCHANGED sess /\ Done(c, R("err", <<>>))
       ELSE LET o == ReadOp(sess[cur].buf, sess[cur].hid, 1, FALSE, FALSE)
            IN /\ sess' = [sess EXCEPT ![cur].hid = o.cur]
               /\ \E a \in NextAnswers(c, o, cur) : Done(c, a)
    /\ UNCHANGED <<cfg, own, src, opens, cur, starter, readers>>

\* one step of iterating: waits for data while the stream runs, ends when it is stopped
LinIter(c) ==
    /\ Called(c, "iter") \/ Called(c, "sbiter")
    /\ pend[c].op.r \in DOMAIN readers
    /\ LET rd == readers[pend[c].op.r]
           o  == ReadOp(sess[rd.sess].buf, rd.cur, rd.n, rd.peek, rd.strict)
       IN /\ o.t = "sig" => sess[rd.sess].stopped
          /\ SetCur(pend[c].op.r, o)
          /\ Done(c, IF o.t = "sig" THEN R("stop", <<>>) ELSE Answer(o, TRUE))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

\* iterating over the stream buffer first makes a reader of the newest session
IterMk(c) ==
    /\ Called(c, "sbiter")
    /\ pend[c].op.r \notin DOMAIN readers
    /\ starter = NoClient
    /\ IF cur = 0
       THEN Done(c, R("err", <<>>)) /\ UNCHANGED readers
       ELSE /\ readers' = Put(readers, pend[c].op.r,
                              [sess |-> cur, cur |-> <<>>, n |-> 1, peek |-> FALSE,
                               ign |-> FALSE, strict |-> FALSE])
            /\ UNCHANGED pend
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

(* assigning and deleting the cursor *)
LinSeek(c) ==
    /\ Called(c, "seek") \/ Called(c, "reset")
    /\ readers' = [readers EXCEPT ![pend[c].op.r].cur =
                     IF pend[c].op.op = "seek" THEN pend[c].op.v ELSE <<>>]
    /\ Done(c, R("ok", <<>>))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter>>

(* joining: waits for the reading thread of the newest session, however long *)
LinJoin(c) ==
    /\ Called(c, "join")
    /\ \E t \in (IF starter = NoClient THEN {NS} ELSE {NS, NS - 1} \ {0}) :
         IF t = 0 \/ (starter # NoClient /\ sess[t].w \in {"new", "ready"})
         THEN Done(c, R("err", <<>>))       \* no thread yet
         ELSE \/ sess[t].w = "dead" /\ Done(c, R("err", <<>>))
              \/ /\ sess[t].w = "done" \/ pend[c].op.late = 1       \* waits only so long
                 /\ Done(c, R("ok", <<>>))
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter, readers>>

(* reader state *)
LinQuery(c) ==
    /\ c \in DOMAIN pend /\ pend[c].ph = "called"
    /\ LET op == pend[c].op IN
       CASE op.op = "last"    -> Done(c, R("last", readers[op.r].cur))
         [] op.op = "stopped" -> Done(c, Bool(sess[readers[op.r].sess].stopped))
         [] op.op = "info"    -> Done(c, InfoOf(readers[op.r].sess))
         [] op.op = "same"    -> Done(c, Bool(readers[op.r].sess = readers[op.r2].sess))
         [] OTHER             -> FALSE
    /\ UNCHANGED <<cfg, src, opens, sess, own, cur, starter, readers>>

Lin(c) ==
    \/ StartBegin(c) \/ StartDone(c) \/ LinStop(c) \/ LinIsRun(c) \/ LinSInfo(c)
    \/ LinMk(c) \/ LinAttach(c) \/ LinDrop(c) \/ LinRead(c) \/ LinRange(c)
    \/ LinHead(c) \/ LinTail(c) \/ LinNext(c) \/ LinSbNext(c) \/ LinIter(c)
    \/ IterMk(c) \/ LinQuery(c) \/ LinSeek(c) \/ LinJoin(c)

Silent == AppendItem \/ FailStop \/ \E c \in DOMAIN pend : Lin(c)

-----------------------------------------------------------------------------
(* Nothing is left to do: true whenever time has passed undisturbed.  `left` is what the
   source still had to deliver, `reads` how often it was read meanwhile. *)
Quiet(left, reads) ==
    /\ starter = NoClient
    /\ src \in {"open", "closed"} \/ (src = "reading" /\ ~Own.stopped)
    /\ \A i \in 1..NS : /\ sess[i].stopped => sess[i].w \in {"done", "dead"}
                        /\ sess[i].fail => sess[i].stopped
                        /\ sess[i].w # "got"
                        /\ i < NS => sess[i].stopped
    /\ (own > 0 /\ own = NS /\ ~Own.stopped /\ (cfg.auto = 1 \/ ~Full(Own))) => (left = 0 /\ reads > 0)
    /\ \A c \in DOMAIN pend :
         LET op == pend[c].op IN
         /\ pend[c].ph = "called"
         /\ op.op \in {"read", "iter", "sbiter", "join"}
         /\ op.op = "read" => op.blk = 1
         /\ op.op = "join" => op.late = 0 /\ sess[NS].w \notin {"done", "dead"}
         /\ op.op # "join" => op.r \in DOMAIN readers
         /\ op.op # "join" => LET rd == readers[op.r] IN
              /\ ~sess[rd.sess].stopped
              /\ Newer(sess[rd.sess].buf, rd.cur) = <<>>
=============================================================================
