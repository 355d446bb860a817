------------------------------- MODULE LossMC -------------------------------
EXTENDS Loss, TLC, Json
CONSTANTS K, Big, Depth
VARIABLES ms, y, g
vars == <<ms, y, g>>
Init == ms \in [1..K -> -Big..Big] /\ y \in {0, 1} /\ g = <<>>
(* a margin grows                                                                                                              *)
Next == \E k \in 1..K : ms[k] < Big /\ ms' = [ms EXCEPT ![k] = @ + 1] /\ UNCHANGED <<y, g>>
Probability == Lik(ms, 0) > 0 /\ Lik(ms, 1) > 0 /\ Lik(ms, 0) + Lik(ms, 1) = D(ms)
(* each probability is a factor: no subspace can make up for another one                                                       *)
Conjunctive == \A k \in 1..K : N(ms) * Den(ms[k]) <= Num(ms[k]) * D(ms)
Signs == \A k \in 1..K : IF y = 1 THEN Slope(ms, y, k) < 0 ELSE Slope(ms, y, k) >= 0
(* the loss changes as its derivative says: a step of ln 3 in one margin changes it by about the mean of the slopes at both ends,
   and by something between the least and the greatest of them, the loss being convex (or concave) in one margin              *)
Grows == [][IF y = 1 THEN Lik(ms', 1) * D(ms) > Lik(ms, 1) * D(ms') ELSE Lik(ms', 0) * D(ms) < Lik(ms, 0) * D(ms')]_vars
(* log of a ratio a / b of likelihoods in units of 1 / 10000, by its series                                                     *)
Log(a, b) == LET z == (10000 * (a - b)) \div (a + b) p == (z * z) \div 10000 z3 == (z * p) \div 10000 z5 == (z3 * p) \div 10000 z7 == (z5 * p) \div 10000 z9 == (z7 * p) \div 10000 IN
             2 * (z + (z3 \div 3) + (z5 \div 5) + (z7 \div 7) + (z9 \div 9))
Derivative == [][\A k \in 1..K : ms'[k] # ms[k] =>
                    LET a == Lik(ms, y) * D(ms') b == Lik(ms', y) * D(ms)
                        s1 == Slope(ms, y, k) s2 == Slope(ms', y, k)
                        lo == IF s1 < s2 THEN s1 ELSE s2 hi == IF s1 < s2 THEN s2 ELSE s1 IN
                    (a < 100000 /\ b < 100000) => LET d == Log(a, b) IN d >= ((lo \div 100) * 1098) \div 100 - 60 /\ d <= (((hi \div 100) + 1) * 1099) \div 100 + 60]_vars
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(s) == s[R(1..Len(s))]
Roll(k) == TLCEval(R(1..k))
Table(n, V) == TLCEval([j \in 1..n |-> TLCEval(R(V))])
Matrix(n, m, V) == TLCEval([r \in 1..n |-> Table(m, V)])
(* a partition of the attributes into k blocks, in any order                                                                     *)
RandPartition(k, d) == LET f == TLCEval(R({h \in [1..d -> 1..k] : \A s \in 1..k : \E j \in 1..d : h[j] = s})) IN [s \in 1..k |-> SetToSeq({j \in 1..d : f[j] = s})]
RandMask(k, d, S) == TLCEval([s \in 1..k |-> SetToSeq(TLCEval(R(SUBSET (1..d) \ S)))])
(* weights which give moderate margins on the examples                                                                          *)
Weights(k, d, bias, mask, exs) ==
    LET big == k = 1 /\ d < 4 /\ Roll(2) = 1
        Ws == {w \in [1..(d + 1) -> IF big THEN -4..4 ELSE -1..1] : bias = 1 \/ w[d + 1] = 0} IN
    TLCEval([s \in 1..k |->
        LET Fit == {w \in Ws : LET v == Masked([r \in 1..k |-> w], mask)[s] IN \A e \in 1..Len(exs) : AbsV(Margin(v, exs[e][s])) <= (IF big THEN 9 ELSE 3)} IN TLCEval(R(Fit))])
NewScript ==
    LET kernel == TLCEval(Pick(<<0, 0, 1>>)) part == TLCEval(IF kernel = 1 THEN 0 ELSE Pick(<<0, 0, 1>>)) k == Roll(2)
        c == TLCEval(IF part = 1 THEN k - 1 + Roll(4 - k) ELSE Roll(IF kernel = 1 THEN 2 ELSE 3)) n == Roll(3) bias == TLCEval(IF part = 1 THEN 1 ELSE R({0, 1})) IN
    LET X == Matrix(n, c, IF kernel = 1 THEN -1..1 ELSE -2..2) subs == RandMask(k, c, IF kernel = 1 THEN {{}} ELSE {}) masked == Roll(2) sub == Roll(2) IN
    LET subspace(s) == IF sub = 1 THEN 1..c ELSE ToSet(subs[s]) IN
    LET exs == TLCEval([e \in 1..n |-> [s \in 1..k |-> IF kernel = 1 THEN KernelRow(X[e], X, subspace(s)) ELSE X[e]]])
        mask == IF part = 1 THEN TLCEval(RandPartition(k, c)) ELSE IF kernel = 0 /\ masked = 1 THEN subs ELSE <<>> IN
    LET d == IF kernel = 1 THEN n ELSE c IN
    LET pen == TLCEval(IF part = 1 THEN 0 ELSE Pick(<<0, 0, 1, 2>>)) IN
    TLCEval([kernel |-> kernel, part |-> part, prox |-> IF pen > 0 /\ mask = <<>> THEN Roll(2) - 1 ELSE 0, k |-> k, n |-> n, d |-> d, bias |-> bias, X |-> X, y |-> Table(n, {0, 1}), mask |-> mask, subs |-> IF kernel = 1 /\ sub = 2 THEN subs ELSE <<>>,
             pen |-> pen, G |-> Matrix(k, d, -3..3),
             W |-> TLCEval([j \in 1..Depth |-> Weights(k, d, bias, mask, exs)]), runs |-> Roll(2)])
SimInit == ms = <<>> /\ y = 0 /\ g = <<>>
SimNext == UNCHANGED <<ms, y>> /\ g' = <<TLCEval(NewScript)>>
SimExport == g # <<>> => PrintT("SCRIPT " \o ToJson(g[1]))
=============================================================================
