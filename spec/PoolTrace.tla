----------------------------- MODULE PoolTrace -----------------------------
(* Judges recorded operations on a pool. A trace is [n, truth, partial, steps]; a step is an operation as in PoolMC    *)
(* with what was observed: out (the distinct outcomes of many calls), bad (calls refused), vals (<<name, millionths>>), *)
(* fits (of the models of query by disagreement), rank and pred.                                                      *)
EXTENDS Pool, TraceLib
VARIABLES t, i, st, lab
vars == <<t, i, st, lab>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ st = [k \in 1..Traces[t].n |-> "U"] /\ lab = [k \in 1..Traces[t].n |-> -1]
Outs(s) == ToSet(s.out)
InSome(s) == UNION {ToSet(o) : o \in Outs(s)}
Pos == {k \in 1..Tr.n : Tr.truth[k] = 1}
Neg(all) == {k \in 1..Tr.n : Tr.truth[k] = 0 /\ (all => \A j \in 1..Len(Tr.partial[k]) : Tr.partial[k][j] = 0)}
SampleOf(s, U, size, P) ==
      C(\A o \in Outs(s) : Distinct(o) /\ ToSet(o) \subseteq U, P \o ".not_distinct_unlabeled_points")
    \cup C(\A o \in Outs(s) : Len(o) = size, P \o ".wrong_number")
    \cup C(InSome(s) = U \/ size = 0, P \o ".point_never_chosen")
ValueOf(s, name) == LET S == {v \in ToSet(s.vals) : v[1] = name} IN IF Cardinality(S) = 1 THEN (CHOOSE v \in S : TRUE)[2] ELSE -1
Scores(s, pairs) ==
    LET c == TLCEval(Counts(pairs)) IN
      C({v[1] : v \in ToSet(s.vals)} = {s.prefix \o name : name \in ToSet(s.names)}, "P32.names")
    \cup C(\A name \in ToSet(s.names) : IsFraction(ValueOf(s, s.prefix \o name), Score(c, name)), "P32.score")
Rows(f) == {<<e[1], e[2], e[3]>> : e \in ToSet(f)}
(* the three fits, in any order: of the learner on the labeled points, and of the biased models *)
Qbd(s) ==
    LET U == Unlabeled(st)
        B == {e[1] : e \in {z \in Rows(s.fits[2]) : z[1] \notin Labeled(st)}}
    IN IF Len(s.fits) # 3 THEN {"P30.fits"}
       ELSE   C(Rows(s.fits[1]) = Ones(st, lab) /\ Len(s.fits[1]) = Cardinality(Labeled(st)), "P30.learner_training_set")
         \cup C(B \subseteq U /\ Cardinality(B) = Min2(s.k, Cardinality(U)), "P30.background")
         \cup C(\A j \in {2, 3} : Len(s.fits[j]) = Cardinality(Labeled(st)) + Cardinality(B), "P30.repeated_rows")
         \cup C({Rows(s.fits[2]), Rows(s.fits[3])} = {Biased(st, lab, B, 0), Biased(st, lab, B, 1)}, "P30.biased_training_sets")
         \cup C(\A p, q \in 1..Tr.n : (s.rank[p] < s.rank[q]) = (s.tabs[2][p] # s.tabs[3][p] /\ s.tabs[2][q] = s.tabs[3][q]), "P30.ranking")
         \cup C(s.pred = s.tabs[1], "P30.predictions_of_the_learner")
Verdict(s) ==
    CASE s.op = "query" /\ Unlabeled(st) # {} ->
            LET S == TLCEval(Selectable(Unlabeled(st), s.sc, s.k)) IN
              C(\A o \in Outs(s) : Len(o) = 1 /\ ToSet(o) \subseteq Unlabeled(st), "P20.single_unlabeled_point")
            \cup C(\A o \in Outs(s) : ToSet(o) \subseteq S, "P20.not_minimal")
            \cup C(S \subseteq InSome(s) \/ (s.k > 0 /\ Tr.n > 6), "P20.minimizer_never_chosen")
      [] s.op = "random" -> SampleOf(s, Unlabeled(st), Min2(s.m, SampleSize(Unlabeled(st), s.k)), "P20")
      [] s.op = "stratified" ->
            LET NN == Neg(s.names # <<>>) IN
            IF s.k > Cardinality(Pos) \/ s.m > Cardinality(NN) THEN C(s.out = <<>> /\ s.bad > 0, "P33.too_few_points_not_refused")
            ELSE   C(s.bad = 0, "P33.refused")
              \cup C(\A o \in Outs(s) : Distinct(o) /\ Len(o) = s.k + s.m /\ Cardinality(ToSet(o) \cap Pos) = s.k, "P33.numbers")
              \cup C(\A o \in Outs(s) : ToSet(o) \subseteq Pos \cup NN, "P33.negative_in_all_subspaces")
              \cup C(InSome(s) = Pos \cup NN, "P33.point_never_chosen")
      [] s.op = "sampler" -> SampleOf(s, Unlabeled(st), Min2(s.k, Cardinality(Unlabeled(st))), "P33")
      [] s.op = "fixed" -> C(Outs(s) = {s.ids}, "P33.fixed")
      [] s.op = "qbd" /\ Labeled(st) # {} -> Qbd(s)
      [] s.op = "scores" -> Scores(s, [k \in 1..Len(s.ids) |-> <<Tr.truth[s.ids[k]], s.sc[s.ids[k]]>>])
      [] s.op = "training" /\ Labeled(st) # {} -> LET q == SetToSeq(Labeled(st)) IN Scores(s, [k \in 1..Len(q) |-> <<lab[q[k]], s.sc[q[k]]>>])
      [] s.op = "unknown" -> C(s.bad = 1, "P32.unknown_name_accepted")
      [] s.op = "tsm" -> C(LET f == ThreeSet(s.sc) IN f[2] = 0 \/ IsFraction(ValueOf(s, "tsm"), f), "P32.three_set_metric")
      [] s.op = "entropy" -> C(IsFraction(ValueOf(s, "prediction_entropy"), <<Cardinality({k \in 1..Tr.n : s.sc[k] = 1}), Tr.n>>), "P32.prediction_entropy")
      [] OTHER -> {}
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i'] IN
       /\ st' = CASE s.op = "clear" -> [k \in 1..Tr.n |-> "U"]
                  [] s.op = "label" -> [k \in 1..Tr.n |-> IF k \in ToSet(s.ids) THEN "L" ELSE st[k]]
                  [] s.op = "infer" -> [k \in 1..Tr.n |-> IF k \in ToSet(s.ids) THEN "I" ELSE st[k]]
                  [] OTHER -> st
       /\ lab' = IF s.op = "label" THEN [k \in 1..Tr.n |-> IF k \in ToSet(s.ids) THEN Tr.truth[k] ELSE lab[k]] ELSE lab
       /\ Report(t, i', Verdict(s))
Spec == Init /\ [][Step]_vars
=============================================================================
