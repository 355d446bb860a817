------------------------- MODULE VersionSpaceTrace -------------------------
(* Judges recorded uses of version space learners and of the body they sample from. A trace is                        *)
(* [kind, d, icpt, pool, y, steps]; a step is an operation of VersionSpaceMC with what was observed:                  *)
(*   grow, shrink  seen (the training set), proba (millionths) and pred of all pool points                             *)
(*   grow of a body: the rows in force are the signed pool points named so far                                        *)
(*   walk          signs of a w for all rows and samples, norm2 (millionths) of samples                                 *)
(*   line          r (1: there is a segment), t (thousandths) ; oracle: r, bias, g ; inside, interior: r               *)
(*   round         grid, the points X / 10 and their distance (millionths) in the metric of the ellipsoid                *)
EXTENDS VersionSpace, TraceLib
VARIABLES t, i, seen, flip   \* flip: labels are the opposite ones
vars == <<t, i, seen, flip>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ seen = <<>> /\ flip = FALSE
Icpt == Tr.icpt = 1
Y(k) == IF flip THEN 1 - Tr.y[k] ELSE Tr.y[k]
Rows(s) == [k \in 1..Len(s) |-> Signed(Tr.pool[s[k]], Y(s[k]), Icpt)]
(* the rows with another coordinate, which is not zero in the last one only: that of a body of one more dimension       *)
Lifted(A) == [k \in 1..Len(A) |-> A[k] \o <<IF k = Len(A) THEN 1 ELSE 0>>]
Fit(s, now) ==
    IF Tr.kind = "body" \/ now = <<>> THEN {}
    (* with kernels, a labeled point is told from a new one by the jitter of the kernel only: a sample may, very rarely, lie in between *)
    ELSE   C(FoldSet(LAMBDA k, e : e + (IF s.proba[k] = 1000000 * Y(k) THEN 0 ELSE IF s.proba[k] \in 0..1000000 THEN AbsV(s.proba[k] - 1000000 * Y(k)) ELSE 1000000), 0, ToSet(now))
                <= (IF Tr.kind = "kernel" THEN 1 + 1000000 \div Tr.votes ELSE 0), "P22.labeled_point_probability")
      \cup C(\A k \in ToSet(now) : s.pred[k] = Y(k), "P22.labeled_point_label")
      \cup C(\A k \in 1..Len(s.order) : s.again[k] = 1000000 * Y(s.order[k]), "P22.training_point_probability")
      \cup C(\A k \in 1..Len(s.proba) : s.proba[k] \in 0..1000000, "P22.no_probability")
      (* the first training after a reset, also done by a new learner                                                   *)
      \cup C(s.fresh = <<>> \/ s.fresh = s.proba, "P22.reset_learner_remembers")
      (* and by the sampler with the options of the learner                                                             *)
      \cup C(s.ref = <<>> \/ s.ref = s.proba, "P22.options_of_the_sampler")
      \cup C(\A k \in 1..Len(s.proba) : s.pred[k] = IF s.proba[k] > 500000 THEN 1 ELSE 0, "P22.label_is_not_the_majority")
      \cup IF Tr.kind # "linear" THEN {}
           ELSE LET A == TLCEval(Rows(now)) IN
                C(\A k \in (1..Len(Tr.pool)) \ ToSet(now) : Forced(A, Tr.pool[k], Y(k), Icpt) => s.proba[k] = 1000000 * Y(k), "P22.forced_point_probability")
Walk(s, A) ==
      C(Len(s.signs) >= 1 /\ \A w \in 1..Len(s.signs) : \A k \in 1..Len(A) : s.signs[w][k] = -1, "P22.sample_disagrees_with_a_label")
    \cup C(\A w \in 1..Len(s.norm2) : s.norm2[w] <= 1000001, "P22.sample_outside_of_the_ball")
    \cup C(\A w \in 1..Len(s.moved) : s.moved[w] = 1, "P22.walk_stands_still")
    \cup C(s.r = 1, "P22.chain_does_not_restart")
    \cup C(s.steps = 1, "P22.warmup_or_thinning")
    (* after a reset, with opposite labels                                                                              *)
    \cup LET O == TLCEval([k \in 1..Len(A) |-> Times(-1, A[k])]) IN
         C(\A k \in 1..Len(s.grid) : InBody(O, s.grid[k][1], 10) => s.grid[k][2] <= 1000010, "P22.ellipsoid_misses_the_body")
(* the ends of a segment, in units of 1 / 10000: point X / 16 + T / 1000 * v *)
At(s, T) == [j \in 1..Tr.d |-> 625 * s.x[j] + 10 * T * s.v[j]]
L1(v) == FoldLeft(LAMBDA x, y : x + AbsV(y), 0, v)
Slack(a, v) == 10 * AbsV(Dot(a, v)) + 10
NormSlack(s) == 100000 * L1(s.v) + 100000
N2(p) == FoldLeft(LAMBDA x, y : x + (IF AbsV(y) > 20000 THEN 400000000 ELSE y * y), 0, p)
Tight(A, s, T) == \/ \E k \in 1..Len(A) : AbsV(Dot(A[k], At(s, T))) <= Slack(A[k], s.v)
                  \/ AbsV(N2(At(s, T)) - 100000000) <= NormSlack(s)
Within(A, s, T) == /\ \A k \in 1..Len(A) : Dot(A[k], At(s, T)) <= Slack(A[k], s.v)
                   /\ N2(At(s, T)) <= 100000000 + NormSlack(s)
Line(s, A) ==
    IF ~InCone(A, s.x) \/ Dot(s.x, s.x) >= s.s * s.s THEN {}      \* only lines through points of the body are of interest
    ELSE IF s.r # 1 THEN {"P22.no_segment"}
    ELSE   C(s.t[1] <= 0 /\ s.t[2] >= 0 /\ s.t[1] < s.t[2], "P22.segment_without_the_point")
      \cup C(Within(A, s, s.t[1]) /\ Within(A, s, s.t[2]), "P22.segment_leaves_the_body")
      \cup C(Tight(A, s, s.t[1]) /\ Tight(A, s, s.t[2]), "P22.segment_too_short")
Oracle(s, A) ==
    LET in == InCone(A, s.x) /\ Dot(s.x, s.x) < s.s * s.s IN
      C((s.r = 0) = in, IF in THEN "P22.separating_plane_of_a_point_inside" ELSE "P22.no_separating_plane")
    \cup (IF s.r = 0 \/ in THEN {}
          ELSE IF s.b = 0 THEN C(OneOf(A, s.g) /\ Dot(s.g, s.x) >= 0, "P22.plane_does_not_separate")
          (* a plane touching the ball in X / |X| *)
          ELSE C(s.b = 1 /\ Dot(s.x, s.x) >= s.s * s.s /\ s.along = 1, "P22.plane_does_not_separate"))
Verdict(s, now) ==
    LET A == TLCEval(Rows(seen)) IN
    CASE s.op \in {"grow", "shrink"} -> Fit(s, now)
      [] s.op = "walk" /\ A # <<>> -> Walk(s, A)
      [] s.op = "line" /\ A # <<>> -> Line(s, A)
      [] s.op = "oracle" /\ A # <<>> -> Oracle(s, A)
      [] s.op = "inside" /\ A # <<>> -> C((s.r = 1) = InCone(A, s.x), "P22.inside")
      [] s.op = "interior" /\ A # <<>> -> C(s.r = 1, "P22.no_interior_point")
      [] s.op = "round" /\ A # <<>> ->
              C(\A k \in 1..Len(s.grid) : InBody(A, s.grid[k][1], 10) => s.grid[k][2] <= 1000010, "P22.ellipsoid_misses_the_body")
         (* some iterations and some more are as many at once                                                                  *)
         \cup C(s.r = 1, "P22.rounding_iterations")
         (* if it ran to its end, the ellipsoid shrunk by (d + 1) sqrt(d) lies in the cone: thousandths                       *)
         \cup C(s.depth = 0 \/ (s.depth > 0 /\ s.depth * s.depth * (Tr.d + 1) * (Tr.d + 1) * Tr.d >= 1000000), "P22.rounding_is_incomplete")
      [] s.op = "lift" /\ Len(A) > 1 ->
            LET L == TLCEval(Lifted(A)) IN
              C(\A k \in 1..Len(s.signs) : s.signs[k] = -1, "P22.sample_disagrees_with_a_label")
         \cup C(\A k \in 1..Len(s.grid) : InBody(L, s.grid[k][1], 10) => s.grid[k][2] <= 1000010, "P22.ellipsoid_misses_the_body")
      [] OTHER -> {}
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i'] IN
       /\ seen' = CASE s.op = "grow" -> seen \o s.b
                    [] s.op \in {"clear", "shrink"} -> s.b
                    [] OTHER -> seen
       /\ flip' = IF s.op = "clear" /\ s.s = 2 THEN ~flip ELSE flip
       /\ Report(t, i', Verdict(s, seen'))
Spec == Init /\ [][Step]_vars
=============================================================================
