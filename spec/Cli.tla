-------------------------------- MODULE Cli --------------------------------
(* A manual labeling session. Answers are sequences of characters (strings of length one).                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
VARIABLES mode,    \* "cont": asked whether to continue, "label": asked for labels, "over"
          labels,  \* [point -> 0 or 1]
          shown,   \* points to label, in order
          iters    \* finished iterations
cvars == <<mode, labels, shown, iters>>

RECURSIVE Tokens(_, _)
(* words of s, separated by spaces; cur is the word under construction *)
Tokens(s, cur) ==
    IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
    ELSE IF s[1] = " " THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Tokens(Tail(s), <<>>)
    ELSE Tokens(Tail(s), Append(cur, s[1]))
WellFormed(s, n) == LET w == Tokens(s, <<>>) IN Len(w) = n /\ \A j \in 1..n : w[j] \in {<<"0">>, <<"1">>}
Values(s) == LET w == Tokens(s, <<>>) IN [j \in 1..Len(w) |-> IF w[j] = <<"1">> THEN 1 ELSE 0]
Yes(s) == s = <<"y">>
No(s) == s = <<"n">>

Over(n, maxit) == Cardinality(DOMAIN labels) = n \/ (maxit > 0 /\ iters >= maxit)
CliInit == mode = "cont" /\ labels = <<>> /\ shown = <<>> /\ iters = 0
(* b: the points picked if the session goes on *)
AnswerCont(s, b) ==
    /\ mode = "cont"
    /\ mode' = IF Yes(s) THEN "label" ELSE IF No(s) THEN "over" ELSE mode
    /\ shown' = IF Yes(s) THEN b ELSE shown
    /\ UNCHANGED <<labels, iters>>
AnswerLabel(s) ==
    /\ mode = "label"
    /\ IF WellFormed(s, Len(shown))
       THEN /\ labels' = [x \in DOMAIN labels \cup ToSet(shown) |->
                            IF x \in ToSet(shown) THEN Values(s)[CHOOSE j \in 1..Len(shown) : shown[j] = x] ELSE labels[x]]
            /\ mode' = "cont" /\ iters' = iters + 1 /\ shown' = <<>>
       ELSE UNCHANGED cvars
BothLabels == {labels[x] : x \in DOMAIN labels} = {0, 1}
=============================================================================
