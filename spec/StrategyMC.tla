----------------------------- MODULE StrategyMC -----------------------------
(* A pool of N points and a set of hypotheses, one of them true: the loop of asking for the label of a best point and *)
(* dropping the hypotheses it refutes, for uncertainty and for entropy reduction; and random histories of a learner.  *)
EXTENDS Strategy, TLC, Json
CONSTANTS N, Hyp, Depth
VARIABLES V, truth, asked, mode, g
vars == <<V, truth, asked, mode, g>>
Points == 1..N
AllTables == [Points -> {0, 1}]
Init == /\ g = <<>> /\ asked = <<>> /\ mode \in {"uncertainty", "entropy"}
        /\ \E k \in 1..Hyp : V \in [1..k -> AllTables]
        /\ truth \in {V[h] : h \in DOMAIN V}
Best == IF mode = "uncertainty" THEN {p \in Points : \A q \in Points : Key(V, p) <= Key(V, q)}
        ELSE IF \A p \in Points : ~Cuts(V, p) THEN Points
        ELSE {p \in Points : \A q \in Points : ~EntropyLess(V, q, p, Points, Points)}
Ask == \E p \in Best :
        /\ \E q \in Points : Cuts(V, q)
        /\ V' = SelectSeq(V, LAMBDA h : h[p] = truth[p])
        /\ asked' = Append(asked, p) /\ UNCHANGED <<truth, mode, g>>
Next == Ask
(* the truth is never refuted, and what all hypotheses agree on is true *)
Sound == /\ truth \in ToSet(V)
         /\ \A p \in Points : ~Cuts(V, p) => V[1][p] = truth[p]
NoPointTwice == Cardinality(ToSet(asked)) = Len(asked)
(* every question which can, drops hypotheses *)
Progress == [][Len(V') < Len(V)]_vars
(* a least key is the best guarantee on the number of dropped hypotheses, whatever the answer *)
Left(p) == Max2(Cardinality(Given(V, p, 0)), Cardinality(Given(V, p, 1)))
Halving == \A p, q \in Points : (Key(V, p) <= Key(V, q)) = (Left(p) <= Left(q))
(* asking reduces entropy on average; nothing is left of the entropy of the point asked for, and points which do not cut do not change anything *)
Reduces == Len(V) <= 8 => \A p \in Points :
    LET before == Len(V) * SumEntropy(V, DOMAIN V, Points) slack == 2 * Len(V) * N IN
    /\ Expected(V, p, Points) <= before + slack
    /\ Expected(V, p, {p}) = 0
    /\ ~Cuts(V, p) => Expected(V, p, Points) = before
Concave == \A c \in 2..8 : \A a \in 1..(c - 1) : H(a, c) = H(c - a, c) /\ 2 * H(a, c) >= H(a - 1, c) + H(a + 1, c)
(* the strategies agree on which points are among the most even cuts *)
EntropyRefines == mode = "entropy" /\ (\E p \in Points : Cuts(V, p)) => \A p \in Best : \A q \in Points : Key(V, p) <= Key(V, q)
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
Coord == -3..3
Kinds == <<"flat", "columns", "real", "real", "simple", "ratio", "linear", "kernel", "entropy", "entropy", "entropy", "categorical", "items">>
Side(w, x) == w[1] * x[1] + w[2] * x[2] + w[3]
NewScript ==
    LET kind == TLCEval(Pick(Kinds))
        n == TLCEval(IF kind = "entropy" THEN R(6..10) ELSE R(4..9))
        w == TLCEval(<<D(5) - 3, Pick(<<-2, -1, 1, 2>>), D(3) - 2>>)
        raw == TLCEval(SetToSeq(ToSet(TLCEval([k \in 1..n |-> TLCEval(<<TLCEval(R(Coord)), TLCEval(R(Coord))>>)]))))
        good == TLCEval(SelectSeq(raw, LAMBDA x : Side(w, x) # 0))
        G == TLCEval(R((SUBSET (1..4)) \ {{}}))
        vectors == TLCEval([k \in 1..n |-> TLCEval(R({x \in [1..4 -> {0, 1}] : \E j \in 1..4 : x[j] = 1}))])
        ones == TLCEval([k \in 1..n |-> LET c == D(4) IN TLCEval([j \in 1..4 |-> IF j = c THEN 1 ELSE 0])])
        pool == TLCEval(CASE kind = "items" -> vectors [] kind = "categorical" -> ones [] kind = "linear" -> good [] OTHER -> raw)
    IN TLCEval([kind |-> kind, pool |-> pool, opts |-> TLCEval([k \in 1..8 |-> TLCEval(R(0..3))]),
                y |-> TLCEval([k \in 1..Len(pool) |->
                        CASE kind \in {"items", "categorical"} -> IF Items(pool[k]) \subseteq G THEN 1 ELSE 0
                          [] kind = "linear" -> IF Side(w, pool[k]) > 0 THEN 1 ELSE 0
                          [] OTHER -> TLCEval(R({0, 1}))]),
                tab |-> TLCEval([k \in 1..Len(pool) |-> TLCEval(R(0..8))])])
LabeledBy(ops) == FoldLeft(LAMBDA s, o : IF o.op = "clear" THEN {} ELSE s \cup ToSet(o.b), {}, ops)
RandOp(sc, ops) ==
    LET n == Len(sc.pool) rest == TLCEval((1..n) \ LabeledBy(ops)) d == D(12) IN
    IF d = 1 \/ (rest = {} /\ d < 6) THEN [op |-> "clear", b |-> <<>>, at |-> <<>>, k |-> 0]
    ELSE [op |-> "label", b |-> TLCEval(RandSeq(rest, TLCEval(IF sc.kind = "entropy" THEN R({0, 1}) ELSE R({0, 1, 2, 3})))),
          at |-> TLCEval(IF sc.kind = "entropy" THEN RandSeq(1..n, n) ELSE [j \in 1..TLCEval(D(n + 2)) |-> TLCEval(R(1..n))]), k |-> TLCEval(Pick(<<0, 0, 0, 1, 2, n>>))]
SimInit == V = <<>> /\ truth = <<>> /\ asked = <<>> /\ mode = "" /\ g = <<>>
SimNext == /\ UNCHANGED <<V, truth, asked, mode>>
           /\ g' = IF g = <<>> THEN <<NewScript>> ELSE Append(g, TLCEval(IF Len(g[1].pool) < 3 THEN [op |-> "clear", b |-> <<>>, at |-> <<>>, k |-> 0] ELSE RandOp(g[1], Tail(g))))
SimExport == Len(g) = Depth + 1 => PrintT("SCRIPT " \o ToJson([s |-> g[1], ops |-> Tail(g)]))
=============================================================================
