------------------------------ MODULE KernelMC ------------------------------
EXTENDS Kernel, TLC, Json
CONSTANTS Cols, Big, Depth
VARIABLES k, x, y, g
vars == <<k, x, y, g>>
Points == [1..Cols -> -Big..Big]
Kernels == [kind : {"linear"}, degree : {1}, gamma : {0}, c : {0}] \cup [kind : {"poly"}, degree : {1, 2, 3}, gamma : {0, 1, 4}, c : {0, 1, 2}] \cup [kind : {"rbf"}, degree : {1}, gamma : {0, 1, 2}, c : {0}]
Init == k \in Kernels /\ x \in Points /\ y = <<>> /\ g = <<>>
Next == y = <<>> /\ y' \in Points /\ UNCHANGED <<k, x, g>>
Given == y # <<>>
(* kernels are symmetric and obey the inequality of Cauchy and Schwarz                                                             *)
Symmetric == Given => Value(k, x, y) = Value(k, y, x)
Moderate(v) == AbsV(v) < 32769
CauchySchwarz == Given /\ Moderate(Value(k, x, x)) /\ Moderate(Value(k, y, y)) /\ Moderate(Value(k, x, y)) =>
    LET s == Slack(k, x, y) a == AbsV(Value(k, x, y)) IN a * a <= Value(k, x, x) * Value(k, y, y) + 65536 * s
Diagonal == Given => Value(k, x, x) >= 0 /\ (k.kind = "rbf" => Value(k, x, x) = 32768 /\ (x # y => Value(k, x, y) < 32768))
(* interaction terms make the square of a polynomial linear: (sum of x)^2 = sum of squares + 2 sum of products                     *)
Expansion == LET z == Interactions(x, TRUE) s == SumOf(x) IN Len(z) = 2 * Cols + (Cols * (Cols - 1)) \div 2 /\ s * s = SumOf(SubSeq(z, Cols + 1, 2 * Cols)) + 2 * SumOf(Products(x))
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(s) == s[R(1..Len(s))]
Roll(n) == TLCEval(R(1..n))
Row(m, V) == TLCEval([j \in 1..m |-> TLCEval(R(V))])
Matrix(n, m) == LET V == -2..2 IN TLCEval([r \in 1..n |-> Row(m, V)])
NewKernel == LET kind == TLCEval(Pick(<<"linear", "poly", "poly", "rbf", "rbf">>)) IN
    TLCEval([kind |-> kind, degree |-> IF kind = "poly" THEN Roll(3) ELSE 1, gamma |-> TLCEval(IF kind = "poly" THEN Pick(<<0, 1, 2, 4, 5>>) ELSE IF kind = "rbf" THEN Pick(<<0, 1, 2, 3>>) ELSE 0),
             c |-> TLCEval(IF kind = "poly" THEN R(-2..3) ELSE 0)])
NewOp(m) ==
    LET n == Roll(4) l == Roll(3) op == TLCEval(Pick(<<"compute", "alone", "diagonal", "fit", "fit", "transform", "transform", "transform", "fit_transform", "clone", "interact">>)) IN
    TLCEval([op |-> op, X |-> Matrix(n, m), Y |-> Matrix(l, m), squares |-> Roll(2)])
NewSubspaces(m) == TLCEval([s \in 1..Roll(3) |-> LET S == TLCEval(R(SUBSET (1..m) \ {{}})) q == SetToSeq(S) IN IF Roll(2) = 1 THEN q ELSE Reverse(q)])
SimInit == k = <<>> /\ x = <<>> /\ y = <<>> /\ g = <<>>
SimNext == UNCHANGED <<k, x, y>> /\ g' = TLCEval(LET m == Roll(4) IN
    <<[k |-> NewKernel, cols |-> m, jitter |-> TLCEval(R({0, 1})), kind |-> TLCEval(Pick(<<"plain", "transformer", "transformer", "factorized", "factorized", "nystroem", "learner", "learner", "classifier", "classifier">>)), subs |-> NewSubspaces(m),
       ops |-> TLCEval([j \in 1..Depth |-> NewOp(m)])]>>)
SimExport == g # <<>> => PrintT("SCRIPT " \o ToJson(g[1]))
=============================================================================
