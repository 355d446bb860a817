---------------------------- MODULE ScheduleTrace ----------------------------
(* Judges trainings in a row of a factorized uncertainty sampler, and of the linear models of a swap learner.                          *)
EXTENDS Schedule, TraceLib
VARIABLES t, i, it, cur
vars == <<t, i, it, cur>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ it = 0 /\ cur = <<>>
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
(* the penalty's two terms for the single row (3, 4, 0, ..)                                                                          *)
Probe(j) == IF j = 1 THEN 3 ELSE IF j = 2 THEN 4 ELSE 0
Norm(G) == Root(SumOf([k \in 1..Len(G) |-> Probe(G[k]) * Probe(G[k])]), 0, 100)
L1 == IF Tr.groups = <<>> THEN 7 ELSE SumOf([k \in 1..Len(Tr.groups) |-> Norm(Tr.groups[k])])
Sampler(s) ==
    LET W == After(s.W, Tr.X, Tr.prune) IN
      C(Len(s.start) = Rows(cur, Tr.k) /\ \A r \in 1..Len(s.start) : Len(s.start[r]) = Tr.d + 1, "P40.number_of_subspaces")
    \cup C(IF cur = <<>> THEN s.random = 1 ELSE s.start = cur, IF cur = <<>> THEN "P40.not_a_new_start" ELSE "P40.does_not_go_on_from_its_weights")
    \* strength: the penalty of the probe in units of 1 / 2520 of the full one's parameter
    \cup C(IF Tr.pen = 0 THEN s.strength = 0 ELSE AbsV(s.strength - Share(it + 1, Tr.iters) * (L1 + 5)) <= 20, "P40.strength_of_the_penalty")
    \cup C(s.w = W, "P40.another_model")
    \cup C(\A e \in 1..Len(Tr.X) : LET ms == Margins(W, [k \in 1..Len(W) |-> Tr.X[e]]) IN
              (\A k \in 1..Len(ms) : AbsV(ms[k]) <= 6) /\ D(ms) < 2000000 => AbsV(s.proba[e] - ((100000 \div D(ms)) * N(ms) + (((100000 % D(ms)) * Min2(N(ms), 20000)) \div D(ms)))) <= 100 \/ N(ms) > 20000, "P40.probabilities")
(* the first iteration of a run of equal steps *)
RunStart(r, q) == SumOf([k \in 1..(q - 1) |-> r[k][1]])
SizesOk(c, j) == IF j > 0 THEN c.sizes[1][2] = RefineStep(Tr) /\ \A q \in 1..Len(c.sizes) : c.sizes[q][2] = c.sizes[1][2]
                 ELSE \A q \in 1..Len(c.sizes) : LET f == RunStart(c.sizes, q) IN SwapStep(Tr, f, c.sizes[q][2]) /\ SwapStep(Tr, f + c.sizes[q][1] - 1, c.sizes[q][2])
(* subspaces <<least probability, any weights>> of the data which are left *)
Matters(l) == l[2] = 1 /\ l[1] < 1000 * Tr.threshold
Border(ls) == \E k \in 1..Len(ls) : AbsV(ls[k][1] - 1000 * Tr.threshold) <= 1
Left(c, j) == IF j = 0 \/ Tr.prune = 0 THEN c.least ELSE SelectSeq(c.least, Matters)
Fact(c, model) ==
      C(c.limit = Tr.fmax /\ c.sizes[1][2] = 10 * Tr.fstep /\ c.strength = 120 * Tr.fpen, "P40.options_of_the_factorization")
    \cup C(c.rows = Len(model), "P40.number_of_subspaces")
Simple(s) ==
    LET n == it + 1 j == n - Tr.swap_iter - 1 IN
    IF j < 0 THEN C(s.calls = <<>>, "P40.trained_too_early")
    ELSE IF Len(s.calls) # (IF Factorizes(Tr, j) THEN 3 ELSE 1) THEN {"P40.trainings"}
    ELSE LET c == s.calls[1] IN
         C(c.rows = IF j = 0 THEN Tr.k ELSE Len(cur), "P40.number_of_subspaces")
       \cup C(c.warm = IF j = 0 THEN 0 ELSE 1, "P40.does_not_go_on_from_its_weights")
       \cup C(c.limit = IF j = 0 THEN SwapLimit(Tr) ELSE Limit(Tr, j), "P40.iteration_limit")
       \cup C(c.retries = IF j = 0 THEN Tr.retries ELSE 1, "P40.starting_points")
       \cup C(SizesOk(c, j), "P40.step_size")
       \cup C(c.strength = IF j = 0 THEN 0 ELSE s.strength, "P40.penalty")
       \cup C(s.strength = 100 * (Tr.l1 * L1 + Tr.l2 * 5), "P40.penalty")
       \cup C(Border(c.least) \/ s.left = Left(c, j), "P40.pruned_another")
       \cup (IF Factorizes(Tr, j) THEN Fact(s.calls[2], s.left) ELSE {})
Verdict(s) == IF s.op = "clear" THEN {} ELSE IF Tr.kind = "sampler" THEN Sampler(s) ELSE Simple(s)
Step == /\ i < Len(Tr.steps)
        /\ i' = i + 1 /\ UNCHANGED t
        /\ LET s == Tr.steps[i'] IN
           /\ it' = (IF s.op = "clear" THEN 0 ELSE it + 1)
           /\ cur' = (IF s.op = "clear" THEN <<>> ELSE IF Tr.kind = "sampler" THEN After(s.W, Tr.X, Tr.prune) ELSE s.left)
           /\ Report(t, i', Verdict(s))
Spec == Init /\ [][Step]_vars
=============================================================================
