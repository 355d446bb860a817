----------------------------- MODULE LossTrace -----------------------------
(* Judges the functions given to an optimizer (gradients of batches are added up over an epoch), and the model made of what it returns.                                          *)
EXTENDS Loss, TraceLib
VARIABLES t, i
vars == <<t, i>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0
Subspace(subs, k, c) == IF subs = <<>> THEN 1..c ELSE ToSet(subs[k])
Features(subs, x) == [k \in 1..Tr.k |-> IF Tr.kernel = 1 THEN KernelRow(x, Tr.X, Subspace(subs, k, Len(x))) ELSE x]
Xs(subs) == [e \in 1..Tr.n |-> Features(subs, Tr.X[e])]
In(k, j) == Tr.mask = <<>> \/ j = Tr.d + 1 \/ j \in ToSet(Tr.mask[k])
Entry(k, j) == In(k, j) /\ (j <= Tr.d \/ Tr.bias = 1)
MaxAbs(x) == Max({AbsV(x[j]) : j \in 1..Len(x)} \cup {0})
Same(m, n) == \A k \in 1..Tr.k : \A j \in 1..(Tr.d + 1) : m[k][j] = n[k][j]
(* proximal algorithms deal with the penalty themselves                                                                       *)
GradOk(s, W) == LET G == Gradient(W, Xs(s.subs), Tr.y) IN
    \A k \in 1..Tr.k : \A j \in 1..(Tr.d + 1) : Entry(k, j) =>
        AbsV(s.grad[k][j] - (G[k][j] + IF Tr.pen > 0 /\ Tr.prox = 0 /\ j <= Tr.d THEN 100000 * Tr.G[k][j] ELSE 0)) <= 60 + AbsV(G[k][j]) \div 5000
Within(s, b) == \A e \in 1..Tr.n : \A m \in ToSet(Margins(Masked(s.W, Tr.mask), Xs(s.subs)[e])) : AbsV(m) <= b
(* a gradient of one subspace in this range is a 32-bit number                                                                *)
Bounded(s) == Tr.k = 1 /\ SumOf([e \in 1..Tr.n |-> Pow(3, AbsV(Margins(Masked(s.W, Tr.mask), Xs(s.subs)[e])[1])) * MaxAbs(Xs(s.subs)[e][1] \o <<1>>)]) <= 21000
Verdict(s) ==
    CASE s.op = "eval" /\ Within(s, 9) /\ ~Within(s, 4) /\ Bounded(s) -> C(GradOk(s, Masked(s.W, Tr.mask)), "P37.gradient")
      [] s.op = "eval" /\ ~Within(s, 4) -> {}    \* of little precision
      [] s.op = "eval" ->
            LET W == Masked(s.W, Tr.mask) L == Likelihood(W, Xs(s.subs), Tr.y) IN
              C(AbsV(s.lik - L \div Pow(2, Tr.pen)) <= 8, "P37.loss")
            \cup C(GradOk(s, W), "P37.gradient")
            \cup C(Tr.pen = 0 \/ \A p \in ToSet(s.pen) : Len(p) = Tr.k /\ \A k \in 1..Tr.k : Len(p[k]) = Tr.d /\ \A j \in 1..Tr.d : p[k][j] = W[k][j], "P37.penalized_weights")
            \cup C(Tr.pen = 0 \/ s.pen # <<>>, "P37.no_penalty")
      \* a step of a proximal algorithm whose penalty takes everything: biases stay
      [] s.op = "prox" -> C(s.arg = [k \in 1..Tr.k |-> SubSeq(s.W[k], 1, Tr.d)] /\ Same(s.x, [k \in 1..Tr.k |-> [j \in 1..(Tr.d + 1) |-> IF j = Tr.d + 1 THEN s.W[k][j] ELSE 0]]), "P37.proximal_step")
      [] s.op = "start" -> C(Same(s.x0, Masked(s.W, Tr.mask)), "P37.starting_point")
      [] s.op = "model" ->
            LET W == Masked(s.W, Tr.mask) IN
              C(Same(s.w, W), "P37.weights_of_the_model")
            \cup C(s.subspaces = Tr.k, "P37.number_of_subspaces")
            \cup C(\A e \in 1..Len(s.at) : LET ms == Margins(W, Features(s.subs, s.at[e])) IN
                      (\A k \in 1..Tr.k : AbsV(ms[k]) <= 4) => /\ AbsV(s.proba[e] - ((1000000 \div D(ms)) * N(ms) + (((1000000 % D(ms)) * N(ms)) \div D(ms)))) <= 2
                                                               /\ (2 * N(ms) # D(ms) => (s.pred[e] = 1) = (2 * N(ms) > D(ms)))
                                                               /\ \A k \in 1..Tr.k : AbsV(s.partial[e][k] - ((1000000 * Num(ms[k])) \div Den(ms[k]))) <= 2, "P37.probabilities")
            \cup C(s.starts = s.retries, "P37.starting_points")
            \cup C(s.same = 1, "P37.data_modified")
Step == /\ i < Len(Tr.steps)
        /\ i' = i + 1 /\ UNCHANGED t
        /\ Report(t, i', Verdict(Tr.steps[i']))
Spec == Init /\ [][Step]_vars
=============================================================================
