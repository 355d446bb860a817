----------------------------- MODULE BayesTrace -----------------------------
(* Judges the predictions of Bayesian logistic learners: z are the arguments of the normal distribution function which give the      *)
(* probabilities, in thousandths.                                                                                                   *)
EXTENDS Bayes, TraceLib
VARIABLES t, i
vars == <<t, i>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0
Verdict(s) ==
      C(\A j \in 1..Len(s.z) : s.z[j] \in -9999..9999, "P39.not_a_probability")
    \cup C(Len(s.pred) = Len(s.z) /\ \A j \in 1..Len(s.z) : AbsV(s.z[j]) > 1 => (s.pred[j] = 1) = (s.z[j] > 0), "P39.label_and_probability")
    \cup C(\A j \in 1..Len(s.z) : \A k \in 1..Len(s.z) : AbsV(s.z[j]) + 2 < AbsV(s.z[k]) => s.rank[j] <= s.rank[k], "P39.scores")
    \cup C(s.same = 1, "P39.argument_modified")
    \cup (IF s.op = "exact" THEN C(\A j \in 1..Len(s.z) : AbsV(s.z[j] - Argument(s.cs[j], s.qs)) <= 12, "P39.probability")
          ELSE IF s.op = "prior" THEN
               C(\A j \in 1..Len(s.z) : AbsV(s.z[j] - (IF s.neg = 1 THEN -1 ELSE 1) * PriorArgument(s.cs[j], s.a, s.b)) <= 12, "P39.prior")
          \cup C(\A j \in 1..Len(s.z) : AbsV(s.z[j] - s.kernel[j]) <= 12, "P39.kernel_and_weights")
          ELSE \* the same model in weights and in kernels; opposite labels, opposite points
               C(\A j \in 1..Len(s.z) : AbsV(s.z[j] - s.kernel[j]) <= 12, "P39.kernel_and_weights")
          \cup C(\A j \in 1..Len(s.z) : AbsV(s.z[j] + s.flip[j]) <= 12, "P39.opposite_labels")
          \cup C(\A j \in 1..Len(s.z) : AbsV(s.z[j] + s.mirror[j]) <= 12, "P39.opposite_points")
          \* an intercept is the weight of another attribute, which is always one
          \cup C(\A j \in 1..Len(s.z) : AbsV(s.icpt[1][j] - s.icpt[2][j]) <= 12, "P39.intercept")
          \* the options of kernel and prior: the weights of kernel values, and of the products which a polynomial kernel stands for
          \cup C(\A j \in 1..Len(s.z) : AbsV(s.values[1][j] - s.values[2][j]) <= 12, "P39.kernel_values")
          \cup C(\A j \in 1..Len(s.z) : AbsV(s.squares[1][j] - s.squares[2][j]) <= 12, "P39.kernel_options")
          \cup C(\A j \in 1..Len(s.z) : AbsV(s.squares[1][j]) > 1 => (s.squares_pred[j] = 1) = (s.squares[1][j] > 0), "P39.label_and_probability")
          \cup C(AbsV(s.origin) <= 2, "P39.origin"))
Step == /\ i < Len(Tr.steps)
        /\ i' = i + 1 /\ UNCHANGED t
        /\ Report(t, i', Verdict(Tr.steps[i']))
Spec == Init /\ [][Step]_vars
=============================================================================
