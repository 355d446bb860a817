---------------------------- MODULE OptimTrace ----------------------------
(* Judges recorded minimizations (steps: begin, x: an iterate given to the callback, end) and mini-batches (fit, grad).   *)
EXTENDS Optim, TraceLib
VARIABLES t, i, k, h, prev, x, goon, used, seen, before
vars == <<t, i, k, h, prev, x, goon, used, seen, before>>
Tr == Traces[t]
O == Tr.o
Init == t \in 1..Len(Traces) /\ i = 0 /\ k = -1 /\ h = <<>> /\ prev = <<>> /\ x = <<>> /\ goon = "no" /\ used = {} /\ seen = <<>> /\ before = <<>>
Eps(dir, s) == [j \in 1..Len(dir) |-> 6 + (AbsV(Scaled(dir[j], s)) \div 64)]
(* the move from x, with the gradient g there, to x2; calls are the gradients evaluated meanwhile                         *)
MoveOk(o, hh, x1, g1, x2, calls) ==
    LET s == StepSize(o, k) IN
    CASE o.kind = "gd" -> Close(x2, [j \in 1..Len(x1) |-> x1[j] - Scaled(hh.v[j], s)], Eps(hh.v, s))
      [] o.kind = "adam" -> LET d == AdamDir(o, hh, k + 1) e == Eps(d, s) IN \A j \in 1..Len(x1) : Tiny(hh, j) \/ AbsV(x2[j] - (x1[j] - Scaled(d[j], s))) <= e[j]
      [] o.kind = "prox" -> Close(x2, Prox(o, x1, g1, s), Eps(x1, <<0, 1>>))
      [] o.kind = "fista" -> LET y == IF hh.y = <<>> THEN x1 ELSE hh.y IN
                             \E c \in ToSet(calls) : Close(c.x, y, [j \in 1..Len(y) |-> 12 + (AbsV(y[j] - x1[j]) \div 64)]) /\ Close(x2, Prox(o, c.x, c.g, s), Eps(x1, <<0, 1>>))
      [] o.kind = "noisy" -> LET n == [j \in 1..Len(x1) |-> (x2[j] - x1[j] + Scaled(U * g1[j], s)) \div 2] r == Scaled(U, s) \div 2 IN
                             AbsV(ISqrt(Sq(n)) - r) <= 6 + (r \div 64)
      [] o.kind = "line" -> LET v == [j \in 1..Len(x1) |-> hh.v[j] \div 16] d == [j \in 1..Len(x1) |-> (x2[j] - x1[j]) \div 16] IN
                            \/ Sq(v) < 64
                            \/ /\ AbsV(SumOf([j \in 1..Len(x1) |-> O.a[j] * (x2[j] \div 16) * v[j]])) <= 10000 * Len(x1)
                               /\ \A a, b \in 1..Len(x1) : AbsV(d[a] * v[b] - d[b] * v[a]) <= 2 * (AbsV(d[a]) + AbsV(d[b]) + AbsV(v[a]) + AbsV(v[b]) + 4)
Iterate(s) ==
    IF k = -1 THEN C(\A j \in 1..Len(s.x) : s.x[j] = Tr.runs[s.r].x0[j] * U, "P27.another_starting_point")
    ELSE  C(goon # "no", "P27.goes_on_although_converged")
     \cup C(k < O.max, "P27.more_iterations_than_allowed")
     \cup C(MoveOk(O, h, x, s.pg, s.x, s.calls), "P27.step_of_" \o O.kind)
End(s) ==
      C(k >= 0 /\ s.it = k, "P27.number_of_iterations")
    \cup C(s.last = 1, "P27.not_the_last_iterate")
    \cup C(k = O.max \/ goon # "yes", "P27.stops_early")
    \cup C(IF s.success = 1 THEN goon # "yes" ELSE k = O.max /\ (goon # "no" \/ RelTest(O, prev, x) # "yes"), "P27.wrong_success")
    \cup C(s.fun = 1, "P27.function_value")
    \cup C(s.same = 1, "P27.starting_point_modified")
    \cup C(s.kept = 1, "P27.iterates_modified")
----------------------------------------------------------------------------
(* coefficients of the examples in a gradient, for weights near zero, in units of 1 / (12 * size)                        *)
Used(s) == {e \in 1..Tr.n : s.c[e] # 0}
Grad(s) ==
    LET n == Tr.n b == IF Tr.b = 0 \/ Tr.b >= n THEN n ELSE Tr.b B == Used(s) IN
      C(BatchOk(used, B, n, b), IF b = n THEN "P26.not_all_examples" ELSE IF B \cap used # {} THEN "P26.an_example_twice" ELSE "P26.size_of_a_batch")
    \cup C(Tr.bias = 0 \/ s.b = SumOf(s.c), "P26.not_the_mean_over_the_batch")
    \* with as many examples no two passes are alike by chance
    \cup C(~(n >= 12 /\ b <= 2 /\ UsedAfter(used, B, n) = {}) \/ before # Append(seen, B), "P26.same_order_again")
    \cup C(\A e \in B : s.c[e] = IF Tr.y[e] = 1 THEN -6 ELSE IF Tr.k = 1 THEN 6 ELSE 2, "P26.not_the_mean_over_the_batch")
----------------------------------------------------------------------------
(* BFGS: no derivative exceeds the tolerance, or the last iteration allowed was done                                      *)
BGrad(p) == [j \in 1..Len(p) |-> O.a[j] * (p[j] - O.c[j] * U)]
BBig(p) == Max({AbsV(BGrad(p)[j]) : j \in 1..Len(p)})
BValue(p) == SumOf([j \in 1..Len(p) |-> O.a[j] * ((p[j] - O.c[j] * U) \div 64) * ((p[j] - O.c[j] * U) \div 64)])
BGoon(p) == IF BBig(p) > 256 * O.gt + 8 THEN "yes" ELSE IF BBig(p) < 256 * O.gt - 8 THEN "no" ELSE "open"
BLast == O.max # 0 /\ k = O.max
BIterate(s) ==
    IF k = -1 THEN C(s.x = [j \in 1..Len(s.x) |-> Tr.runs[s.r].x0[j] * U], "P27.another_starting_point")
    ELSE  C(goon # "no", "P27.goes_on_although_converged")
     \cup C(~BLast, "P27.more_iterations_than_allowed")
     \cup C(BValue(s.x) <= BValue(x) + 512 * Len(x) + BValue(x) \div 64, "P27.step_of_bfgs")
BEnd(s) ==
      C(k >= 0 /\ s.it = k, "P27.number_of_iterations")
    \cup C(s.last = 1, "P27.not_the_last_iterate")
    \cup C(BLast \/ goon # "yes", "P27.stops_early")
    \cup C(IF s.success = 1 THEN goon # "yes" ELSE BLast, "P27.wrong_success")
    \cup C(s.fun = 1, "P27.function_value")
    \cup C(s.same = 1, "P27.starting_point_modified")
Verdict(s) ==
    CASE s.op = "begin" -> {}
      [] s.op = "x" -> Iterate(s)
      [] s.op = "end" -> End(s)
      [] s.op = "bx" -> BIterate(s)
      [] s.op = "bend" -> BEnd(s)
      [] s.op = "fit" -> {}
      [] s.op = "grad" -> Grad(s)
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i'] IN
       /\ Report(t, i', Verdict(s))
       /\ k' = IF s.op = "begin" THEN -1 ELSE IF s.op \in {"x", "bx"} THEN k + 1 ELSE k
       /\ prev' = IF s.op = "begin" THEN <<>> ELSE IF s.op \in {"x", "bx"} THEN x ELSE prev
       /\ x' = IF s.op = "begin" THEN <<>> ELSE IF s.op \in {"x", "bx"} THEN s.x ELSE x
       /\ h' = IF s.op = "begin" THEN (IF O.kind = "bfgs" THEN <<>> ELSE Fresh(Len(O.free)))
               ELSE IF s.op # "x" THEN h
               ELSE IF O.kind = "fista" THEN (IF k = -1 THEN h ELSE [h EXCEPT !.y = Ahead(h, x, s.x), !.th = NextTheta(h.th)])
               ELSE Absorb(O, h, s.g)
       /\ goon' = IF s.op = "bx" THEN BGoon(s.x) ELSE IF s.op # "x" THEN goon
                  ELSE LET v == Test(O, x, s.x, s.sign, s.g) IN IF v = "yes" THEN "no" ELSE IF v = "no" THEN "yes" ELSE "open"
       /\ used' = IF s.op = "fit" THEN {} ELSE IF s.op = "grad" THEN UsedAfter(used, Used(s), Tr.n) ELSE used
       /\ IF s.op = "fit" THEN seen' = <<>> /\ UNCHANGED before
          ELSE IF s.op = "grad" THEN (IF used' = {} THEN seen' = <<>> /\ before' = Append(seen, Used(s)) ELSE seen' = Append(seen, Used(s)) /\ UNCHANGED before)
          ELSE UNCHANGED <<seen, before>>
Spec == Init /\ [][Step]_vars
=============================================================================
