---------------------------- MODULE FactorTrace ----------------------------
(* Judges recorded searches for partitions and uses of factorized models. Traces start with their script; steps:         *)
(*   brute, greedy: eval (part, loss, x0: weights of the blocks or nothing) ... ret (part; r = 0: refused)               *)
(*   antichain: fact (results for the rows of rel in several orders)                                                    *)
(*   clf: merge (a, b, warm, blocks, parts), flm: fit, prune, relevant ...                                              *)
EXTENDS Factor, TraceLib
VARIABLES t, i, cands, level
vars == <<t, i, cands, level>>
Tr == Traces[t]
AsPart(p) == {ToSet(p[k]) : k \in 1..Len(p)}
Init == t \in 1..Len(Traces) /\ i = 0 /\ cands = {} /\ level = {}
MaxD == Limit(Tr.maxd, Tr.n)
----------------------------------------------------------------------------
IsPart(p) == /\ \A k \in 1..Len(p) : Distinct(p[k]) /\ p[k] # <<>>
             /\ UNION AsPart(p) = 1..Tr.n /\ SumOf([k \in 1..Len(p) |-> Len(p[k])]) = Tr.n
BruteRet(s) ==
    IF ~Possible(Tr.n, Tr.maxk, Tr.maxd) THEN C(s.r = 0, "P25.no_partition_but_no_error")
    ELSE IF s.r = 0 THEN {"P25.refused"}
    ELSE LET All == TLCEval(Admissible(Tr.n, Tr.maxk, Tr.maxd)) IN
           C(IsPart(s.part) /\ AsPart(s.part) \in All, "P25.result_is_not_admissible")
      \cup C(\A e \in level : e.part \in All, "P25.evaluated_another")
      \cup IF Cardinality(All) = 1 THEN {}
           ELSE  C(All \subseteq {e.part : e \in level}, "P25.missed_a_partition")
            \cup C(\E e \in level : e.part = AsPart(s.part) /\ \A f \in level : e.loss <= f.loss, "P25.not_the_best")
----------------------------------------------------------------------------
(* cands: partitions which may be the current one, with their losses; level: evaluations since then                      *)
LevelParts == {e.part : e \in level}
BestOf(L) == {e \in L : \A f \in L : e.loss <= f.loss}
(* the candidates whose merges are all evaluated, and the best merges are better: these are next                         *)
Advance == LET done == {c \in cands : Merges(c.part, MaxD) = LevelParts} IN
    IF done # {} /\ level # {} THEN {e \in BestOf(level) : \E c \in done : e.loss < c.loss} ELSE {}
Fits(c, P) == P \in Merges(c.part, MaxD)
Stay(P) == {c \in cands : Fits(c, P)}
GreedyOk(s) == LET P == AsPart(s.part) IN
    IF cands = {} THEN P = Singles(Tr.n) ELSE Stay(P) # {} \/ \E c \in Advance : Fits(c, P)
GreedyCands(s) == LET P == AsPart(s.part) e == [part |-> P, loss |-> s.loss] IN
    IF cands = {} THEN {e} ELSE IF Stay(P) # {} THEN Stay(P) ELSE {c \in Advance : Fits(c, P)}
GreedyLevel(s) == LET e == [part |-> AsPart(s.part), loss |-> s.loss] IN
    IF cands = {} THEN {} ELSE IF Stay(AsPart(s.part)) # {} THEN level \cup {e} ELSE {e}
(* weights of stub models: of an attribute in a block, and of a block                                                    *)
Key(b) == SumOf([j \in 1..Tr.n |-> IF j \in b THEN j * j ELSE 0])
Weight(b, j) == (3 * Key(b) + 7 * j) % 11
Bias(b) == (5 * Key(b)) % 13
WarmOk(s) ==
    \/ cands = {} \/ s.x0 = <<>>
    \/ Tr.warm = 0 /\ \A k \in 1..Len(s.x0) : \A j \in 1..Len(s.x0[k]) : s.x0[k][j] = 0
    \/ \E c \in GreedyCands(s) : \A k \in 1..Len(s.part) : LET b == ToSet(s.part[k]) IN
          LET from == {a \in c.part : a \subseteq b} IN
          /\ s.x0[k][1] = SumOf([q \in 1..Cardinality(from) |-> Bias(SetToSeq(from)[q])])
          /\ \A j \in 1..Len(s.part[k]) : \E a \in from : s.part[k][j] \in a /\ s.x0[k][j + 1] = Weight(a, s.part[k][j])
Only == Tr.n = 1 \/ Limit(Tr.maxk, Tr.n) = 1 \/ MaxD = 1
GreedyRet(s) ==
    IF ~Possible(Tr.n, Tr.maxk, Tr.maxd) THEN C(s.r = 0, "P25.no_partition_but_no_error")
    ELSE IF s.r = 0 THEN {"P25.refused"}
    ELSE IF Only THEN C(IsPart(s.part) /\ AsPart(s.part) \in Admissible(Tr.n, Tr.maxk, Tr.maxd), "P25.result_is_not_admissible")
    ELSE LET P == AsPart(s.part)
             (* no merge is better than the result, which stays as it is; or nothing is left to merge                    *)
             Kept1 == {c \in cands : Merges(c.part, MaxD) = LevelParts /\ \A e \in level : e.loss >= c.loss}
             LastOne == {e \in Advance : Merges(e.part, MaxD) = {}} IN
         C(IsPart(s.part) /\ \E c \in Kept1 \cup LastOne : c.part = P, "P25.greedy_stops_elsewhere")
----------------------------------------------------------------------------
Antichain(s) ==
    LET M == TLCEval(Maximal({ToSet(Tr.rel[k]) : k \in 1..Len(Tr.rel)})) IN
      C(\A k \in 1..Len(s.facts) : Lists([q \in 1..Len(s.facts[k]) |-> ToSet(s.facts[k][q])], M) /\ \A q \in 1..Len(s.facts[k]) : Distinct(s.facts[k][q]), "P24.not_the_maximal_sets")
    \cup C(\A k \in 1..Len(s.facts) : s.facts[k] = s.facts[1], "P24.depends_on_the_order")
----------------------------------------------------------------------------
(* models over a partition: blocks are [attrs, bias, weights]                                                            *)
BlockMargin(b, x) == b.bias + SumOf([q \in 1..Len(b.attrs) |-> b.w[q] * x[b.attrs[q]]])
Blocks(bs) == {[bias |-> bs[k].bias, w |-> {<<bs[k].attrs[q], bs[k].w[q]>> : q \in 1..Len(bs[k].attrs)}] : k \in 1..Len(bs)}
Predicts(s) ==
    LET P == TLCEval([x \in 1..Len(Tr.X) |-> [k \in 1..Len(s.blocks) |-> Partial(BlockMargin(s.blocks[k], Tr.X[x]))]]) IN
      C(\A x \in 1..Len(Tr.X) : \A k \in 1..Len(s.blocks) : s.partial[x][k] = P[x][k], "P35.probability_of_a_subspace")
    \cup C(\A x \in 1..Len(Tr.X) : s.proba[x] = Product(P[x]), "P35.probability_is_not_the_product")
    \cup C(\A x \in 1..Len(Tr.X) : s.pred[x] = IF Product(P[x]) > 512 THEN 1 ELSE 0, "P35.label")
Merged(s) == LET a == s.before[s.a] b == s.before[s.b] IN
    UNION {Blocks(<<s.before[k]>>) : k \in (1..Len(s.before)) \ {s.a, s.b}}
    \cup (IF s.a = s.b THEN Blocks(<<a>>) ELSE Blocks(<<[attrs |-> a.attrs \o b.attrs, bias |-> a.bias + b.bias, w |-> a.w \o b.w]>>))
Zeroed(bs) == {[bias |-> 0, w |-> {<<e[1], 0>> : e \in b.w}] : b \in bs}
MergeOk(s) ==
      C(SumOf([k \in 1..Len(s.blocks) |-> Len(s.blocks[k].attrs)]) = Tr.n, "P35.merge")
    \cup C(Blocks(s.blocks) = IF s.warm = 1 \/ s.a = s.b THEN Merged(s) ELSE Zeroed(Merged(s)), "P35.merge")
    \cup Predicts(s)
----------------------------------------------------------------------------
Wt(st) == [k \in 1..Tr.k |-> SubSeq(st[k], 1, Tr.n)]
Bs(st) == [k \in 1..Tr.k |-> IF Tr.bias = 1 THEN st[k][Tr.n + 1] ELSE 0]
Start(q) == LET W == Wt(Tr.starts[q]) IN IF Tr.fact = <<>> THEN W ELSE [k \in 1..Tr.k |-> RestrictTo(W[k], ToSet(Tr.fact[k]))]
Fit(s) ==
    LET ls == TLCEval([q \in 1..Len(Tr.starts) |-> Loss(Start(q), Bs(Tr.starts[q]), Tr.X, Tr.y)])
        mine == {q \in 1..Len(Tr.starts) : s.W = Start(q) /\ s.b = Bs(Tr.starts[q])}
        P == TLCEval([x \in 1..Len(Tr.X) |-> [k \in 1..Len(s.W) |-> Partial(Margin(s.W, s.b, k, Tr.X[x]))]]) IN
      C(mine # {}, IF Tr.fact = <<>> THEN "P35.no_starting_point" ELSE "P35.weights_outside_of_the_subspaces")
    \cup C(mine = {} \/ \E q \in mine : \A p \in 1..Len(ls) : ls[q] <= ls[p], "P35.not_the_best_start")
    \cup C(s.same = 1, "P35.starting_points_modified")
    \cup C(\A x \in 1..Len(Tr.X) : s.partial[x] = P[x], "P35.probability_of_a_subspace")
    \cup C(\A x \in 1..Len(Tr.X) : \A k \in 1..Len(s.W) : s.ppred[x][k] = IF P[x][k] > 4 THEN 1 ELSE 0, "P35.label_of_a_subspace")
    \cup C(\A x \in 1..Len(Tr.X) : s.proba[x] = Product(P[x]), "P35.probability_is_not_the_product")
    \cup C(\A x \in 1..Len(Tr.X) : s.pred[x] = IF Product(P[x]) > 512 THEN 1 ELSE 0, "P35.label")
Prune(s) ==
    LET K == TLCEval(SetToSortSeq(Kept(s.W, s.b, Tr.X), LAMBDA a, b : a < b)) IN
      C(s.pW = [q \in 1..Len(K) |-> s.W[K[q]]] /\ s.pb = [q \in 1..Len(K) |-> s.b[K[q]]], "P35.pruned_another")
    \cup C(s.same = 1, "P35.pruned_model_modified")
Relevant(s) ==
    C(\A k \in 1..Len(s.W) : s.skip[k] = 1 \/ ToSet(s.rel[k]) =
        IF Tr.groups = <<>> THEN RelevantAttrs(s.W[k])
        ELSE LET G == AsPart(Tr.groups) IN IF Clear(s.W[k], G) THEN RelevantOfGroups(s.W[k], G) ELSE ToSet(s.rel[k]), "P24.relevant_attributes")
Verdict(s) ==
    CASE s.op = "eval" /\ Tr.kind = "brute" -> C(IsPart(s.part), "P25.no_partition")
      [] s.op = "eval" /\ Tr.kind = "greedy" -> IF ~IsPart(s.part) THEN {"P25.no_partition"}
            ELSE C(Only \/ GreedyOk(s), "P25.greedy_leaves_its_way") \cup C(Only \/ WarmOk(s), "P25.start_of_a_merge")
      [] s.op = "ret" -> IF Tr.kind = "brute" THEN BruteRet(s) ELSE GreedyRet(s)
      [] s.op = "fact" -> Antichain(s)
      [] s.op = "merge" -> MergeOk(s)
      [] s.op = "predict" -> Predicts(s)
      [] s.op = "fit" -> Fit(s)
      [] s.op = "apart" -> C(s.same = 1, "P35.hands_out_its_own_weights")
      [] s.op = "prune" -> Prune(s)
      [] s.op = "relevant" -> Relevant(s)
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i'] IN
       /\ Report(t, i', Verdict(s))
       /\ cands' = IF s.op = "eval" /\ Tr.kind = "greedy" THEN TLCEval(GreedyCands(s)) ELSE cands
       /\ level' = IF s.op # "eval" THEN level ELSE TLCEval(IF Tr.kind = "greedy" THEN GreedyLevel(s) ELSE level \cup {[part |-> AsPart(s.part), loss |-> s.loss]})
Spec == Init /\ [][Step]_vars
=============================================================================
