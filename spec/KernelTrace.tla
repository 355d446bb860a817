---------------------------- MODULE KernelTrace ----------------------------
(* Judges kernel matrices, and transformers by the points of their last fit.                                                      *)
EXTENDS Kernel, TraceLib
VARIABLES t, i, train, fact
vars == <<t, i, train, fact>>
Tr == Traces[t]
K == Tr.k
Init == t \in 1..Len(Traces) /\ i = 0 /\ train = <<>> /\ fact = 0
(* a learner is fitted with subspaces (fact = 1), or with a number of them, which all use the same features                         *)
Subs(n) == IF Tr.kind = "factorized" \/ fact' = 1 THEN Tr.subs ELSE <<All(n)>>
Off(v, w, k, x, y, extra) == AbsV(v - w) > Slack(k, x, y) + extra
(* the matrix m of the rows of X and Y; jit is what the diagonal has in addition: either of these values where the rows are equal       *)
MatrixOk(m, X, Y, jits, extra) ==
    Len(m) = Len(X) /\ \A r \in 1..Len(X) : Len(m[r]) = Len(Y) /\ \A c \in 1..Len(Y) :
        \E j \in (IF r = c /\ X[r] = Y[c] THEN jits ELSE {0}) : ~Off(m[r][c], Value(K, X[r], Y[c]) + j * (Scale(K) \div 4), K, X[r], Y[c], extra)
AllOk(ms, X, Y, jits, extra) == LET S == Subs(Len(X[1])) IN
    Len(ms) = Len(S) /\ \A k \in 1..Len(S) : MatrixOk(ms[k], SelectAll(X, S[k]), SelectAll(Y, S[k]), jits, extra)
Extra == IF Tr.kind \in {"nystroem", "classifier"} THEN 2 ELSE 0
(* the kernel version space gives its linear model features whose products are the kernel values, and whose squared norms are those of the kernel: d; *)
(* the points of the fit have features of their own, which other points only share up to a last one                              *)
NormsOk(s) == Len(s.d) = Len(s.X) /\ \A r \in 1..Len(s.X) : ~Off(s.d[r], Value(K, s.X[r], s.X[r]) + Tr.jitter * (Scale(K) \div 4), K, s.X[r], s.X[r], Extra)
Verdict(s) ==
      C(s.same = 1, "P38.argument_modified")
    \cup (CASE s.op = "compute" -> C(MatrixOk(s.m, s.X, s.Y, {0, Tr.jitter}, 0), "P38.kernel_matrix")
            [] s.op = "alone" -> C(MatrixOk(s.m, s.X, s.X, {Tr.jitter}, 0), "P38.kernel_matrix_of_itself")
            [] s.op = "diagonal" -> C(Len(s.d) = Len(s.X) /\ \A r \in 1..Len(s.X) : ~Off(s.d[r], Value(K, s.X[r], s.X[r]) + Tr.jitter * (Scale(K) \div 4), K, s.X[r], s.X[r], 0), "P38.diagonal")
            [] s.op = "fit_transform" -> C(AllOk(s.ms, s.X, s.X, {IF Tr.kind = "nystroem" THEN 0 ELSE Tr.jitter}, Extra), "P38.fit_transform")
            [] s.op = "transform" -> C(AllOk(s.ms, s.X, train, {0, Tr.jitter}, Extra), "P38.transform")
            [] s.op = "interact" -> C(Len(s.m) = Len(s.X) /\ \A r \in 1..Len(s.X) : s.m[r] = Interactions(s.X[r], s.squares = 1), "P38.interaction_terms")
            [] OTHER -> {})
    \cup C(Tr.kind # "classifier" \/ Tr.jitter = 0 \/ NormsOk(s), "P38.norm_of_the_features")
    \cup C(s.size = -1 \/ s.size = Len(IF s.op \in {"fit", "fit_transform"} THEN s.X ELSE train), "P38.number_of_components")
Step == /\ i < Len(Tr.steps)
        /\ i' = i + 1 /\ UNCHANGED t
        /\ LET s == Tr.steps[i'] IN /\ fact' = (IF Tr.kind = "learner" /\ s.op = "fit_transform" THEN s.squares - 1 ELSE fact)
                                   /\ Report(t, i', Verdict(s))
                                   /\ train' = IF s.op \in {"fit", "fit_transform"} THEN s.X ELSE train
Spec == Init /\ [][Step]_vars
=============================================================================
