-------------------------------- MODULE Bayes --------------------------------
(* Bayesian logistic regression by Laplace's approximation, on data of as many distinct points as weights, each labeled         *)
(* positive a times and negative b times with a / b a power of three: the margin of such a point is its log odds, a multiple of   *)
(* ln 3, the information of its examples is a b / (a + b), and a point which is a combination c of them has the margin            *)
(* sum c m, of variance sum c^2 (a + b) / (a b).                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
AbsV(x) == IF x < 0 THEN -x ELSE x
SumOf(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)
Counts == <<<<1, 1>>, <<2, 2>>, <<3, 1>>, <<1, 3>>, <<6, 2>>, <<2, 6>>, <<9, 1>>, <<1, 9>>>>
LogOdds(q) == CASE q[1] = q[2] -> 0 [] q[1] = 3 * q[2] -> 1 [] q[2] = 3 * q[1] -> -1 [] q[1] = 9 * q[2] -> 2 [] q[2] = 9 * q[1] -> -2
Combine(Z, c) == [j \in 1..Len(Z[1]) |-> SumOf([k \in 1..Len(Z) |-> c[k] * Z[k][j]])]
Margin(c, qs) == SumOf([k \in 1..Len(c) |-> c[k] * LogOdds(qs[k])])
(* in units of 1 / 18                                                                                                             *)
Variance(c, qs) == SumOf([k \in 1..Len(c) |-> c[k] * c[k] * ((18 * (qs[k][1] + qs[k][2])) \div (qs[k][1] * qs[k][2]))])
(* the argument of the normal distribution function: the margin over the root of variance + 8 / pi, in thousandths                  *)
Argument(c, qs) == (Margin(c, qs) * 1098612) \div ISqrt(100 * ((Variance(c, qs) * 10000 + 458366) \div 18))
(* with a normal prior: a single point, positive a times and negative b < a / 3 times, has the margin ln 3 when the prior's         *)
(* precision over the point's square is (a - 3b) / (4 ln 3); c times that point then has this argument, in thousandths               *)
Precision(a, b) == 3 * (a + b) * 625 + (a - 3 * b) * 2276
PriorArgument(c, a, b) == (c * 1098612) \div ISqrt(100 * ((c * c * 100000000) \div Precision(a, b) + 25465))
=============================================================================
