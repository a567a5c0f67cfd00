----------------------------- MODULE Template -----------------------------
(* Texts that refer to one another, and filling them in.  A text is a sequence *)
(* of parts: Lit a piece of its own, 1..NKeys the value of another key, 11..   *)
(* something given from outside, Unknown something nobody gives; <<Num>> is a  *)
(* value that is no text.  Also: addresses joined with single slashes.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NKeys, NGiven, Most, MaxTokens

Keys == 1..NKeys
Given == {10 + i : i \in 1..NGiven}
Lit == 0
Unknown == 20
Num == 30

Parts == {Lit, Unknown} \cup Keys \cup Given
Texts == {<<Num>>} \cup UNION {[1..n -> Parts] : n \in 0..Most}

Refs(t) == {t[i] : i \in DOMAIN t} \cap (Keys \cup Given \cup {Unknown})

\* every key reachable from k
RECURSIVE Close(_, _)
Close(c, S) == LET T == S \cup UNION {Refs(c[k]) \cap Keys : k \in S} IN IF T = S THEN S ELSE Close(c, T)
Below(c, k) == Close(c, Refs(c[k]) \cap Keys)

Missing(c) == \E k \in Keys : Unknown \in Refs(c[k])
Cyclic(c) == \E k \in Keys : k \in Below(c, k)

\* a piece of key k at place i is 100k + i, a value that is no text 200 + k
RECURSIVE Full(_, _), Each(_, _, _)
Full(c, k) == IF c[k] = <<Num>> THEN <<1000 + k>> ELSE Each(c, k, 1)
Each(c, k, i) ==
    IF i > Len(c[k]) THEN <<>>
    ELSE (CASE c[k][i] = Lit -> <<100 * k + i>>
            [] c[k][i] \in Keys -> Full(c, c[k][i])
            [] OTHER -> <<c[k][i]>>) \o Each(c, k, i + 1)

Answer(c) == IF Missing(c) THEN <<"missing">>
             ELSE IF Cyclic(c) THEN <<"endless">>
             ELSE <<"full", [k \in Keys |-> Full(c, k)]>>

\* a token: does it start with a slash, does it end with one
Tokens == UNION {[1..n -> {0, 1} \X {0, 1}] : n \in 0..MaxTokens}
\* the bodies are numbered; the result is whether it starts, and ends with a slash
Joined(t) == IF t = <<>> THEN <<"empty">> ELSE <<"joined", t[1][1], t[Len(t)][2]>>

\* a single text for which only the given values are known
OneText == UNION {[1..n -> {Lit, Unknown} \cup Given] : n \in 0..Most + 2}
Partly(t) == [i \in DOMAIN t |-> IF t[i] = Lit THEN i ELSE t[i]]

VARIABLES c, ans
Init == \/ c \in [Keys -> Texts] /\ ans = <<"config">> \o Answer(c) /\ PrintT(ToString(<<"X", "fill", c, Answer(c)>>))
        \/ c \in Tokens /\ ans = <<"tokens">> /\ PrintT(ToString(<<"X", "join", c, Joined(c)>>))
        \/ c \in OneText /\ ans = <<"text">> /\ PrintT(ToString(<<"X", "part", c, Partly(c)>>))
Next == UNCHANGED <<c, ans>>

-----------------------------------------------------------------------------
\* what is filled in refers to nothing any more, and texts without references stay
NothingOpen ==
    ans[1] = "config" /\ ans[2] = "full" =>
        \A k \in Keys :
            /\ \A i \in DOMAIN ans[3][k] : ans[3][k][i] > 100 \/ ans[3][k][i] \in Given
            /\ Refs(c[k]) = {} /\ c[k] # <<Num>> => Len(ans[3][k]) = Len(c[k])
=============================================================================
