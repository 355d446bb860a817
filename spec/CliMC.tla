------------------------------- MODULE CliMC -------------------------------
EXTENDS Cli, TLC, Json
CONSTANTS N, MaxIt, MaxLen, SimN, Depth
VARIABLES asked, g
vars == <<cvars, asked, g>>
Chars == {"0", "1", " ", "x"}
Answers == UNION {[1..m -> Chars] : m \in 0..MaxLen}
Batches == {b \in UNION {[1..m -> (1..N) \ DOMAIN labels] : m \in 1..2} : Cardinality(ToSet(b)) = Len(b)}
Init == CliInit /\ asked = 0 /\ g = <<>>
Next == /\ UNCHANGED g /\ asked' = IF asked < 2 THEN asked + 1 ELSE asked
        /\ \/ mode = "cont" /\ ~Over(N, MaxIt) /\ \E b \in Batches : \E s \in {<<"y">>, <<"n">>, <<"x">>} : AnswerCont(s, b)
           \/ \E s \in Answers : AnswerLabel(s)
ShownUnlabeled == \A x \in ToSet(shown) : x \notin DOMAIN labels
LabelsAreAnswers == \A x \in DOMAIN labels : labels[x] \in {0, 1}
Kept == [][\A x \in DOMAIN labels : x \in DOMAIN labels' /\ labels'[x] = labels[x]]_vars
OneByOne == [][iters' # iters => iters' = iters + 1 /\ DOMAIN labels' = DOMAIN labels \cup ToSet(shown)]_vars
StopsForGood == [][mode # "over"]_vars
(* Only answers with exactly one 0 or 1 per point count, whatever their spacing *)
Digits(s) == SelectSeq(s, LAMBDA ch : ch # " ")
SplitRight == \A s \in Answers : \A n \in 0..2 :
    WellFormed(s, n) <=> /\ \A j \in 1..Len(s) : s[j] # "x"
                         /\ Len(Digits(s)) = n
                         /\ \A j \in 1..(Len(s) - 1) : s[j] = " " \/ s[j + 1] = " "
Fair == Init /\ [][Next]_vars /\ WF_vars(mode = "cont" /\ \E b \in Batches : AnswerCont(<<"y">>, b) /\ UNCHANGED <<asked, g>>)
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
RandText(C, m) == TLCEval([j \in 1..m |-> TLCEval(R(C))])
(* answers: good ones of any spacing, and slightly or entirely wrong ones *)
Space == TLCEval(Pick(<<<<>>, <<>>, <<" ">>, <<" ", " ">>>>))
RECURSIVE Good(_)
Good(m) == IF m = 0 THEN Space ELSE TLCEval(Space \o <<TLCEval(R({"0", "1"}))>> \o (IF m > 1 THEN <<" ">> ELSE <<>>) \o Good(m - 1))
RandOp ==
    LET d == D(10) IN
    CASE d <= 3 -> [op |-> "good", s |-> <<>>]
      [] d <= 5 -> [op |-> "fit", s |-> <<>>]
      [] d = 6 -> [op |-> "text", s |-> RandText({"0", "1"}, D(3))]
      [] d = 7 -> [op |-> "text", s |-> RandText({"0", "1", " "}, D(5) - 1)]
      [] d = 8 -> [op |-> "text", s |-> TLCEval(Good(D(3)))]
      [] d = 9 -> [op |-> "text", s |-> TLCEval(R({<<"Y">>, <<"y", "e", "s">>, <<>>, <<"n", "o">>, <<" ", "y">>, <<"y", " ">>, <<"y", "n">>, <<"q">>, <<"0">>, <<"1", "y">>, <<"N">>}))]
      [] OTHER -> [op |-> "text", s |-> RandText({"0", "1", " ", "2", "x", "-", ".", ",", "y"}, D(4))]
NewScript == TLCEval([n |-> TLCEval(R(1..SimN)), maxit |-> TLCEval(Pick(<<0, 0, 1, 2, 3>>)), samp |-> TLCEval(R({0, 1})), good |-> TLCEval([k \in 1..8 |-> TLCEval(Good(k))]),
                      size |-> TLCEval(R(1..3)), stop |-> TLCEval(Pick(<<0, 0, 1, 2, 3>>)), sub |-> TLCEval(Pick(<<0, 0, 1, 3>>))])
SimInit == Init
SimNext == /\ UNCHANGED <<cvars, asked>>
           /\ g' = IF g = <<>> THEN <<NewScript>> ELSE Append(g, TLCEval(RandOp))
SimExport == Len(g) = Depth + 1 => PrintT("SCRIPT " \o ToJson([s |-> g[1], ops |-> Tail(g)]))
=============================================================================
