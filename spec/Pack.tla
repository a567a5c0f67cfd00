------------------------------- MODULE Pack -------------------------------
(* The configuration file of the packaging helper: a map of sections, each a  *)
(* map of options to texts and lists of texts.  A value is a number that the  *)
(* replay gives a concrete value: 1x a text, 2x a list of texts.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sections, Options, Values, MaxWrites

VARIABLES
    file,       \* [Sections -> <<>> or <<configuration>>]
    there,      \* the file exists
    writes,
    op, res

state == <<file, there, writes>>
vars == <<file, there, writes, op, res>>

Configs == UNION {[o -> Values] : o \in SUBSET Options}
\* what TLC prints: a configuration as a sequence of option and value
Pairs(c) == LET RECURSIVE P(_)
                P(s) == IF s = {} THEN <<>> ELSE LET o == CHOOSE x \in s : \A y \in s : x <= y IN <<<<o, c[o]>>>> \o P(s \ {o})
            IN P(DOMAIN c)
Shown(c) == IF c = <<>> THEN <<"no">> ELSE <<"yes", Pairs(c[1])>>
All(f) == [s \in Sections |-> Shown(f[s])]

Init ==
    /\ file = [s \in Sections |-> <<>>]
    /\ there = FALSE
    /\ writes = 0
    /\ op = <<>> /\ res = <<>>

\* a section is replaced as a whole, the others stay
Write(s, c) ==
    /\ writes < MaxWrites
    /\ file' = [file EXCEPT ![s] = <<c>>]
    /\ there' = TRUE
    /\ writes' = writes + 1
    /\ op' = <<"write", s, Pairs(c)>> /\ res' = <<"ok">>

\* a configuration that cannot be written changes nothing
WriteFails(s) ==
    /\ UNCHANGED state
    /\ op' = <<"writebad", s>> /\ res' = <<"raises">>

\* somebody puts comments between the lines and empty lines between sections
Comment ==
    /\ there
    /\ UNCHANGED state
    /\ op' = <<"comment">> /\ res' = <<"ok">>

Read(s) ==
    /\ UNCHANGED state
    /\ op' = <<"read", s>>
    /\ res' = IF ~there \/ file[s] = <<>> THEN <<"raises">> ELSE <<"config", Pairs(file[s][1])>>

ReadAll ==
    /\ UNCHANGED state
    /\ op' = <<"readall">>
    /\ res' = IF there THEN <<"file", All(file)>> ELSE <<"raises">>

Next ==
    \/ \E s \in Sections, c \in Configs : Write(s, c)
    \/ \E s \in Sections : WriteFails(s) \/ Read(s)
    \/ Comment \/ ReadAll

Flat == <<All(file), IF there THEN 1 ELSE 0, writes>>
Emit == PrintT(ToString(<<"X", Flat, op', res', Flat'>>))

-----------------------------------------------------------------------------
\* C24
RoundTrip == op # <<>> /\ op[1] = "write" => Shown(file[op[2]]) = <<"yes", op[3]>>
OthersStay == [][\A s \in Sections : file'[s] # file[s] => op'[1] = "write" /\ op'[2] = s]_vars
=============================================================================
