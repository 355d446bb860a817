-------------------------------- MODULE Loss --------------------------------
(* Training of factorized models: likelihood of the product model, its gradient, masks of fixed attributes.                   *)
(* Weights are multiples of ln 3, so that the probability of margin m is 3^m / (1 + 3^m); a row of weights ends with its bias. *)
(* An example is a sequence of one row of features per subspace.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
AbsV(x) == IF x < 0 THEN -x ELSE x
SumOf(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
ProductOf(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Margin(w, x) == SumOf([j \in 1..Len(x) |-> w[j] * x[j]]) + w[Len(x) + 1]
Margins(W, e) == [k \in 1..Len(W) |-> Margin(W[k], e[k])]
Den(m) == 1 + Pow(3, AbsV(m))
Num(m) == IF m >= 0 THEN Pow(3, m) ELSE 1
N(ms) == ProductOf([k \in 1..Len(ms) |-> Num(ms[k])])
D(ms) == ProductOf([k \in 1..Len(ms) |-> Den(ms[k])])
(* probability of the label of an example, as a fraction of D                                                                  *)
Lik(ms, y) == IF y = 1 THEN N(ms) ELSE D(ms) - N(ms)
(* likelihood of all labels in millionths                                                                                      *)
Likelihood(W, xs, ys) == FoldLeft(LAMBDA f, e : LET ms == Margins(W, xs[e]) IN (f * Lik(ms, ys[e])) \div D(ms), 1000000, [e \in 1..Len(xs) |-> e])
(* derivative of an example's loss by the margin of subspace k, in units of 1 / 100000                                          *)
Slope(ms, y, k) == LET q == Den(ms[k]) - Num(ms[k]) IN
    IF y = 1 THEN -((100000 * q) \div Den(ms[k])) ELSE (((100000 * N(ms)) \div (D(ms) - N(ms))) * q) \div Den(ms[k])
Gradient(W, xs, ys) ==
    [k \in 1..Len(W) |-> [j \in 1..Len(W[1]) |->
        SumOf([e \in 1..Len(xs) |-> Slope(Margins(W, xs[e]), ys[e], k) * (IF j = Len(W[1]) THEN 1 ELSE xs[e][k][j])]) \div Len(xs)]]
(* attributes outside of a subspace have no weight; biases always have                                                          *)
Masked(W, mask) == IF mask = <<>> THEN W ELSE [k \in 1..Len(W) |-> [j \in 1..Len(W[1]) |-> IF j = Len(W[1]) \/ j \in ToSet(mask[k]) THEN W[k][j] ELSE 0]]
(* features of kernel models: products with the training points, over the columns of a subspace                                  *)
KernelRow(x, xs, s) == [e \in 1..Len(xs) |-> SumOf([c \in 1..Len(x) |-> IF c \in s THEN x[c] * xs[e][c] ELSE 0])]
=============================================================================
