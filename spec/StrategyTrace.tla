---------------------------- MODULE StrategyTrace ----------------------------
(* Judges recorded queries of a learner. A trace is [kind, form, n, pool, y, tab, steps]; a step is a batch of labels  *)
(* b, and what the learner then said of the points at: proba, pred and rank, in millionths; want is what the property  *)
(* is about, computed apart: probabilities of the same classifier ("real"), signed distances ("simple"), squared      *)
(* norms ("ratio"); votes are the labels of all points by the hypotheses ("entropy"), size of the sample; asked are   *)
(* the points asked for by the learner out of all unlabeled ones.                                                     *)
EXTENDS Strategy, TraceLib
VARIABLES t, i, seen
vars == <<t, i, seen>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ seen = {}
N == Len(Tr.pool)
Near(a, b) == AbsD(a - b) <= 2
(* Less(p, q): p is to be preferred to q, for positions or points of the pool *)
InOrder(s, Less(_, _)) == C(Tr.scored = 0 \/ \A p, q \in 1..Len(s.at) : Less(s.at[p], s.at[q]) => s.rank[p] < s.rank[q], "P34.order")
Asked(s, now, Less(_, _)) == C(\A p \in ToSet(s.asked) : p \in (1..N) \ now /\ \A q \in (1..N) \ now : ~Less(q, p), "P34.asked_for_another_point")
Equal(s, Same(_, _)) == C(Tr.scored = 0 \/ \A p, q \in 1..Len(s.at) : Same(s.at[p], s.at[q]) => Near(s.rank[p], s.rank[q]), "P34.same_uncertainty_other_score")
(* closeness of the probability of each point of the pool to one half: all strategies of uncertainty *)
Uncertain(s, now, P) ==
    LET D == TLCEval([k \in 1..N |-> AbsD(2 * P[k] - 1000000)])
        Less(p, q) == D[p] + 5 < D[q]
        Same(p, q) == AbsD(D[p] - D[q]) <= 1
    IN InOrder(s, Less) \cup Equal(s, Same) \cup Asked(s, now, Less)
Tables(s, now) ==
    LET P == TLCEval([k \in 1..N |-> Proba(Tr.form, Tr.tab[k], {Tr.y[j] : j \in now})]) IN
      C(\A p \in 1..Len(s.at) : s.proba[p] = P[s.at[p]], "P34.probability_of_positive")
    \cup C(\A p \in 1..Len(s.at) : s.pred[p] = IF Tr.tab[s.at[p]] > 4 THEN 1 ELSE 0, "P34.label_of_the_classifier")
    \cup Uncertain(s, now, P)
Real(s, now) ==
      C(Len(s.proba) = Len(s.at) /\ \A p \in 1..Len(s.at) : Near(s.proba[p], s.want[s.at[p]]), "P34.probability_of_positive")
    \cup C(\A p \in 1..Len(s.at) : s.pred[p] = s.labels[s.at[p]], "P34.label_of_the_classifier")
    \cup Uncertain(s, now, s.want)
Simple(s, now) ==
    LET F == s.want
        Less(p, q) == AbsD(F[p]) + 5 < AbsD(F[q])
        Same(p, q) == FALSE
    IN   InOrder(s, Less) \cup Asked(s, now, Less)
    \cup C(\A p \in 1..Len(s.at) : AbsD(F[s.at[p]]) > 5 => s.pred[p] = (IF F[s.at[p]] > 0 THEN 1 ELSE 0), "P34.label_is_not_the_side")
    \cup C(\A p \in 1..Len(s.at) : LET f == F[s.at[p]] IN (f > 5 => s.proba[p] > 500000) /\ (f < -5 => s.proba[p] < 500000), "P34.probability_is_not_the_side")
    \cup C(\A p, q \in 1..Len(s.at) : F[s.at[p]] + 5 < F[s.at[q]] => s.proba[p] <= s.proba[q], "P34.probability_does_not_grow")
    \cup C(\A p \in 1..Len(s.at) : s.proba[p] \in 0..1000000, "P34.no_probability")
Ratio(s, now) == LET Less(p, q) == RatioLess(s.want[p], s.want[q], 600) IN InOrder(s, Less) \cup Asked(s, now, Less)
Votings(s, now) == (* linear and kernel version spaces: the probability of all points, as said, is the share of votes *)
      C(\A p \in 1..Len(s.at) : s.proba[p] = s.want[s.at[p]], "P34.probability_of_another_point")
    \cup C(\A p \in 1..Len(s.at) : s.pred[p] = IF s.proba[p] > 500000 THEN 1 ELSE 0, "P34.label_is_not_the_majority")
    \cup Uncertain(s, now, s.want)
Entropy(s, now) ==
    LET V == s.votes
        Samples == IF s.size = 0 \/ s.size >= N THEN {1..N} ELSE {S \in SUBSET (1..N) : Cardinality(S) = s.size}
        at == ToSet(s.at)
        none == \A p \in at : ~Cuts(V, p)
        key == TLCEval([p \in 1..N |-> Key(V, p)])
        best == TLCEval(IF at = {} THEN 0 ELSE CHOOSE k \in {key[p] : p \in at} : \A p \in at : k <= key[p])
        open == TLCEval(IF now = 1..N THEN 0 ELSE CHOOSE k \in {key[p] : p \in (1..N) \ now} : \A p \in (1..N) \ now : k <= key[p])
        tol == 3 * Len(V) * (IF s.size = 0 THEN N ELSE s.size)
        Explained(S) ==
            LET E == TLCEval([p \in 1..N |-> IF Cuts(V, p) THEN Expected(V, p, S) ELSE 0]) IN
            /\ \A p, q \in 1..Len(s.at) : LET a == s.at[p] b == s.at[q] IN
                  key[a] = best /\ (key[b] > best \/ E[a] + tol < E[b]) => s.rank[p] < s.rank[q]
            /\ \A a \in ToSet(s.asked) : key[a] = open /\ (open < Len(V) => \A b \in (1..N) \ now : key[b] = open => E[a] <= E[b] + tol)
    IN   C(Len(V) = Tr.votes /\ \A k \in 1..N : s.want[k] * Len(V) = 1000000 * Votes(V, k), "P34.probability_is_not_the_share_of_votes")
    (* but for rounding errors of the size of the kernel's jitter *)
    \cup C(Cardinality({<<h, k>> \in (1..Len(V)) \X now : V[h][k] # Tr.y[k]}) <= 1, "P34.hypothesis_against_a_label")
    \cup C(\A p \in 1..Len(s.at) : s.proba[p] = s.want[s.at[p]], "P34.probability_of_another_point")
    \cup C(\A p \in ToSet(s.asked) : p \in (1..N) \ now, "P34.asked_for_another_point")
    \cup C(none \/ \E S \in Samples : Explained(S), "P34.entropy_order")
Categorical(s, now) ==
    LET P == TLCEval([k \in 1..N |-> IF \E j \in now : Tr.pool[j] = Tr.pool[k] THEN (IF \E j \in now : Tr.pool[j] = Tr.pool[k] /\ Tr.y[j] = 1 THEN 1000000 ELSE 0) ELSE 500000]) IN
      C(\A p \in 1..Len(s.at) : s.proba[p] = P[s.at[p]], "P34.known_values")
    \cup C(\A p \in 1..Len(s.at) : s.pred[p] = IF P[s.at[p]] > 500000 THEN 1 ELSE 0, "P34.label_is_not_the_majority")
    \cup Uncertain(s, now, P)
Itemsets(s, now) ==
    LET S == TLCEval(Consistent(1..4, {Tr.pool[k] : k \in {j \in now : Tr.y[j] = 1}}, {Tr.pool[k] : k \in {j \in now : Tr.y[j] = 0}}))
        P == TLCEval([k \in 1..N |-> (1000000 * Cardinality({h \in S : Items(Tr.pool[k]) \subseteq h})) \div Cardinality(S)])
        Sure(k) == P[k] \in {0, 1000000}
        Less(p, q) == P[p] \in 250000..750000 /\ Sure(q)
    IN   C(\A p \in 1..Len(s.at) : IF Sure(s.at[p]) THEN s.proba[p] = P[s.at[p]] ELSE AbsD(s.proba[p] - P[s.at[p]]) < 400000, "P34.share_of_consistent_sets")
    \cup C(\A p \in 1..Len(s.at) : Sure(s.at[p]) => s.pred[p] = P[s.at[p]] \div 1000000, "P34.label_is_not_the_majority")
    \cup InOrder(s, Less) \cup Asked(s, now, Less)
Verdict(s, now) ==
    IF s.op # "label" \/ s.skip = 1 THEN {}
    ELSE C(s.pred2 = s.pred, "P34.scoring_changes_the_predictions") \cup
         CASE Tr.kind \in {"flat", "columns"} -> Tables(s, now)
           [] Tr.kind = "real" -> Real(s, now)
           [] Tr.kind = "simple" -> Simple(s, now)
           [] Tr.kind = "ratio" -> Ratio(s, now)
           [] Tr.kind \in {"linear", "kernel"} -> Votings(s, now)
           [] Tr.kind = "entropy" -> Entropy(s, now)
           [] Tr.kind = "categorical" -> Categorical(s, now)
           [] Tr.kind = "items" -> Itemsets(s, now)
           [] OTHER -> {}
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i'] IN
       /\ seen' = IF s.op = "clear" THEN {} ELSE seen \cup ToSet(s.b)
       /\ Report(t, i', Verdict(s, seen'))
Spec == Init /\ [][Step]_vars
=============================================================================
