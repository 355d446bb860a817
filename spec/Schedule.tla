------------------------------ MODULE Schedule ------------------------------
(* Trainings in a row: a sampler which goes on from its last weights while its penalty grows, and the iteration limits of the      *)
(* linear models of a swap learner. it counts trainings since the last reset; cur are the last weights, if any.                    *)
EXTENDS Loss
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
(* share of the full penalty in the it-th training, in units of 1 / 2520: it grows evenly over the first p trainings; the           *)
(* logarithmic variant is log(1 + (e - 1) share)                                                                                   *)
Share(it, p) == IF it >= p THEN 2520 ELSE (2520 * it) \div p
(* the weights a training starts with: the last ones, or a random start of k subspaces                                             *)
Rows(cur, k) == IF cur = <<>> THEN k ELSE Len(cur)
(* subspaces which some point of the data does not clearly satisfy, of non-zero weights; p is a probability of at least .99         *)
Clearly(m) == m > 4
Kept(W, X) == {k \in 1..Len(W) : (\E j \in 1..Len(X[1]) : W[k][j] # 0) /\ \E e \in 1..Len(X) : ~Clearly(Margin(W[k], X[e]))}
Sel(W, K) == LET q == SetToSortSeq(K, LAMBDA a, b : a < b) IN [r \in 1..Len(q) |-> W[q[r]]]
After(W, X, prune) == IF prune = 1 THEN Sel(W, Kept(W, X)) ELSE W
----------------------------------------------------------------------------
(* iteration limit of the j-th training of a refining model                                                                        *)
Limit(o, j) == IF o.adapt = 0 THEN o.max
               ELSE IF o.exp = 1 THEN (IF o.min * Pow(2, j \div o.every) > o.max THEN o.max ELSE o.min * Pow(2, j \div o.every))
               ELSE Min2(o.min + o.inc * (j \div o.every), o.max)
(* and of the model which replaces the active learner: passes over the sample, in batches                                           *)
SwapLimit(o) == IF o.cars = 1 THEN 5000 ELSE IF o.decay = 1 THEN 250 * ((o.sample + 249) \div 250) ELSE 200 * ((o.sample + 199) \div 200)
Epochs(o) == IF o.decay = 1 THEN (o.sample + 249) \div 250 ELSE (o.sample + 199) \div 200
(* length v (in units of 1 / 100000) of a step of iteration t of this training: shrinking every twenty passes by a tenth, or      *)
(* every five passes like one over a square root                                                                                *)
Tenth(q) == FoldLeft(LAMBDA x, e : (x * 9) \div 10, 1000000, [e \in 1..q |-> e]) \div 100
SwapStep(o, t, v) == IF o.cars = 1 THEN v = 10000
                     ELSE IF o.decay = 1 THEN AbsV(v - Tenth(t \div (20 * Epochs(o)))) <= 2
                     ELSE LET m == 1 + (t \div (5 * Epochs(o))) IN AbsV(v * v * m - 100000000) <= 2 * v * m + m
RefineStep(o) == IF o.step > 0 THEN 5000 * o.step ELSE IF o.fista = 0 THEN 10000 ELSE IF o.cars = 1 THEN 100000 ELSE 500000
(* factorizations are computed in every fifth training of the linear models                                                     *)
Factorizes(o, j) == o.fact = 1 /\ j % 5 = 0
=============================================================================
