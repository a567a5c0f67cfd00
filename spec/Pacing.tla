------------------------------- MODULE Pacing -------------------------------
(* When a stream reads its source and when a waiting reader looks.  Time is   *)
(* in units of 25 ms: the default pause is 12 (0.3 s), the default polling 4  *)
(* (0.1 s).  The source gives items (1) and nothing (0) as scripted, each     *)
(* read taking a duration; a reader starts to look at time 1 and looks again  *)
(* at once after an item (all other times are even, so nothing coincides).    *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Args, Srcs, Polls, Durations, MaxLen,
          Reps      \* so many times each value of the script
\* Args: time given to the stream (99: none); Srcs: the source's own setting (99: none)

VARIABLES
    conf,       \* <<arg, src, poll, duration>>
    script,
    i,          \* next in the script
    wt,         \* when the worker reads next
    reads,      \* times of the reads so far
    avail,      \* times at which items became available
    rt,         \* when the reader looks next
    got         \* times at which it got them

vars == <<conf, script, i, wt, reads, avail, rt, got>>

Default == 12
Pause == IF conf[1] # 99 THEN conf[1] ELSE IF conf[2] # 99 THEN conf[2] ELSE Default
Poll == conf[3]
Dur == conf[4]

Init ==
    /\ conf \in {<<a, s, p, d>> : a \in Args, s \in Srcs, p \in Polls, d \in Durations}
    /\ \E base \in UNION {[1..m -> {0, 1}] : m \in 1..MaxLen}, rep \in Reps :
         /\ script = [k \in 1..(Len(base) * rep) |-> base[1 + (k - 1) \div rep]]
         /\ (Pause + Dur) * rep <= 150 * Poll      \* bounds the number of looks
    /\ i = 1 /\ wt = 0 /\ rt = 1
    /\ reads = <<>> /\ avail = <<>> /\ got = <<>>

Read ==
    /\ i <= Len(script)
    /\ reads' = Append(reads, wt)
    /\ i' = i + 1
    /\ IF script[i] = 1
       THEN avail' = Append(avail, wt + Dur) /\ wt' = wt + Dur             \* no wait after an item
       ELSE wt' = wt + Dur + Pause /\ UNCHANGED avail
    /\ UNCHANGED <<conf, script, rt, got>>

Look ==
    /\ i > Len(script)      \* (the reader has no influence on the worker)
    /\ Len(got) < Len(avail)
    /\ IF avail[Len(got) + 1] <= rt
       THEN got' = Append(got, rt) /\ UNCHANGED rt
       ELSE rt' = rt + Poll /\ UNCHANGED got
    /\ UNCHANGED <<conf, script, i, wt, reads, avail>>

Next == Read \/ Look

Over == i > Len(script) /\ Len(got) = Len(avail)
Emit == Over => PrintT(ToString(<<"X", conf, script, reads, got>>))
-----------------------------------------------------------------------------
\* C23
Paced == \A j \in 2..Len(reads) :
    reads[j] - reads[j - 1] = Dur + (IF script[j - 1] = 1 THEN 0 ELSE Pause)
Prompt == \A j \in DOMAIN got : /\ got[j] >= avail[j]
                                /\ got[j] - avail[j] <= Poll + 1
                                /\ (got[j] - 1) % Poll = 0
=============================================================================
