--------------------------- MODULE SubspaceTrace ---------------------------
(* Judges recorded uses of subspace learners. A trace is [kind, k, pool, y, modes, part, label, proba, rank, steps];   *)
(* steps: fit, label (fit_data after labeling; b are the rows of the whole training set), refactor (part), clear,       *)
(* query. After a fit the answers for all rows of the pool: pred (0 / 1), probas, ranks (in 1 / One) and those of all   *)
(* subspaces: preds, pprobas (eighths; -1: no multiple), pranks. Kinds:                                                 *)
(*   stub    the base learners condense what they are given                                                             *)
(*   vs      version spaces: subspaces have modes, and values with labels                                               *)
(*   margin  own holds the margins of learners trained on the subspaces separately (millionths)                         *)
EXTENDS Subspace, TraceLib
VARIABLES t, i, part, perm, h
vars == <<t, i, part, perm, h>>
Tr == Traces[t]
All == <<1, 2, 3, 4, 5>>
Part(p) == IF p = <<>> THEN <<All>> ELSE p
Id == [j \in 1..Tr.k |-> j]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ perm = Id
        /\ part = Part(Tr.part) /\ h = [j \in 1..Len(part) |-> 0]
N == Len(Tr.pool)
Col(f, k) == [j \in 1..Len(f) |-> f[j][k]]
Fitted(s, p, h0) ==
    [k \in 1..Len(p) |-> Train(h0[k], [j \in 1..Len(s.b) |-> Row(Tr.pool[s.b[j]], p[k])], [j \in 1..Len(s.b) |-> Tr.y[s.b[j]][k]])]
Stub(s, hs) ==
    LET a == TLCEval([r \in 1..N |-> [k \in 1..Len(part) |-> Answer(hs[k], Row(Tr.pool[r], part[k]))]])
        P(r) == [k \in 1..Len(part) |-> StubProba(a[r][k])]
        L(r) == [k \in 1..Len(part) |-> StubLabel(a[r][k])]
        Q(r) == [k \in 1..Len(part) |-> StubScore(a[r][k])] IN
      C(Len(s.preds) = Len(part) /\ \A r \in 1..N : Col(s.preds, r) = L(r), "P21.labels_of_subspaces")
    \cup C(Len(s.pprobas) = Len(part) /\ \A r \in 1..N : Col(s.pprobas, r) = P(r), "P21.probabilities_of_subspaces")
    \cup C(Len(s.pranks) = Len(part) /\ \A r \in 1..N : Col(s.pranks, r) = Q(r), "P21.ranks_of_subspaces")
    \cup C(\A r \in 1..N : s.pred[r] = Label(Tr.label, Tr.proba, L(r), P(r)), "P21.label_is_not_the_combination")
    \cup C(\A r \in 1..N : s.probas[r] = Proba(Tr.proba, P(r)), "P21.probability_is_not_the_combination")
    \cup C(\A r \in 1..N : s.ranks[r] = Rank(Tr.rank, Q(r)), "P21.rank_is_not_the_combination")
(* version spaces: subspace j is the subspace perm[j] of the pool *)
Mode(j) == Tr.modes[perm[j]]
Val(j, r) == IF Mode(j) = "numerical" THEN r ELSE Tr.pool[r][perm[j]]
What(s, j, r) == Known(Mode(j), [q \in 1..Len(s.b) |-> Val(j, s.b[q])], [q \in 1..Len(s.b) |-> Tr.y[s.b[q]][perm[j]]], Val(j, r))
Vs(s) ==
    LET K == Tr.k IN
      C(Len(s.pprobas) = K /\ \A r \in 1..N : \A j \in 1..K : LET w == What(s, j, r) p == s.pprobas[j][r] IN
            IF w # -1 THEN p = w ELSE Mode(j) = "numerical" => p \in 0..8, "P21.probabilities_of_subspaces")
    \cup C(Len(s.preds) = K /\ \A r \in 1..N : \A j \in 1..K : LET w == What(s, j, r) IN
            w # -1 => s.preds[j][r] = (IF w = 8 THEN 1 ELSE 0), "P21.labels_of_subspaces")
    \cup C(\A r \in 1..N : LET p == Col(s.pprobas, r) y == Col(s.preds, r) IN
            (\A j \in 1..K : Mode(j) = "multiset" => What(s, j, r) # -1) /\ (\A j \in 1..K : p[j] \in 0..8) =>
              /\ s.pred[r] = (IF Tr.label = "prod" THEN Label("none", "prod", y, p) ELSE Label(Tr.label, "", y, p))
              /\ s.probas[r] = Proba(IF Tr.label = "prod" THEN "prod" ELSE IF Tr.label = "and" THEN "min" ELSE "max", p)
              /\ s.ranks[r] = Loss(Tr.rank, p), "P21.not_the_combination")
Margin(s) ==
      C(\A k \in 1..Len(part) : \A r \in 1..N : AbsV(s.own[k][r]) >= 3 => s.preds[k][r] = IF s.own[k][r] > 0 THEN 1 ELSE 0, "P21.labels_of_subspaces")
    \cup C(\A r \in 1..N : s.pred[r] = Label(Tr.label, "", Col(s.preds, r), <<>>), "P21.label_is_not_the_combination")
    \cup C(\A r \in 1..N : AbsV(s.ranks[r] - SumOf([k \in 1..Len(part) |-> AbsV(s.own[k][r])])) <= 10, "P21.rank_is_not_the_combination")
Verdict(s, hs) ==
    CASE s.op \in {"fit", "label"} /\ s.b # <<>> -> IF Tr.kind = "stub" THEN Stub(s, hs) ELSE IF Tr.kind = "vs" THEN Vs(s) ELSE Margin(s)
      (* among the unlabeled points the chosen one is best; of a sample of them, no worse than too many                  *)
      [] s.op = "query" -> C(s.r \in ToSet(s.u) /\ Cardinality({q \in ToSet(s.u) : s.ranks[q] < s.ranks[s.r]}) <= Len(s.u) - (IF s.sub = 0 \/ s.sub > Len(s.u) THEN Len(s.u) ELSE s.sub), "P21.query_is_not_the_best")
      [] s.op = "mismatch" -> C(s.r = 1, "P21.mismatch_accepted")
      [] OTHER -> {}
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i'] IN
       /\ part' = IF s.op = "refactor" THEN Part(s.part) ELSE part
       /\ perm' = IF s.op = "refactor" /\ Tr.kind = "vs" THEN s.perm ELSE perm
       /\ h' = CASE s.op \in {"refactor", "clear"} -> [j \in 1..Len(part') |-> 0]
                 [] s.op \in {"fit", "label"} /\ Tr.kind = "stub" /\ s.b # <<>> -> TLCEval(Fitted(s, part, h))
                 [] OTHER -> h
       /\ Report(t, i', Verdict(s, h'))
Spec == Init /\ [][Step]_vars
=============================================================================
