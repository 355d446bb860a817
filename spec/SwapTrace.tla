------------------------------ MODULE SwapTrace ------------------------------
(* Judges recorded trainings of a swap learner (fit) and resets (clear). Points are given by their numbers.              *)
EXTENDS Swap, TraceLib
VARIABLES t, i, usr, W, b, plab
vars == <<t, i, svars, usr, W, b, plab>>
Tr == Traces[t]
(* the user's subspaces may be replaced before a training *)
U == IF i < Len(Tr.steps) /\ Tr.steps[i + 1].user > 0 THEN Tr.steps[i + 1].user ELSE usr
O == [swap_iter |-> Tr.swap_iter, every |-> Tr.every, repeat |-> Tr.repeat, fact |-> Tr.fact, user |-> [j \in 1..Len(Tr.users[U]) |-> ToSet(Tr.users[U][j])]]
X == Tr.X
Given == [e \in 1..Len(X) |-> Tr.part[e]]
Init == t \in 1..Len(Traces) /\ i = 0 /\ SwapInit /\ usr = 1 /\ W = <<>> /\ b = <<>> /\ plab = <<>>
Names(s) == [q \in 1..Len(s.calls) |-> s.calls[q].who]
Call(s, w) == s.calls[CHOOSE q \in 1..Len(s.calls) : s.calls[q].who = w]
(* which models are trained by this step                                                                                 *)
Train1(n) == IF PhaseOf(O, n) = "active" THEN <<"active">> ELSE IF IsSwap(O, n) THEN <<"swap">> ELSE IF full THEN <<"fact">> ELSE <<"refine">>
Fitted(s, n) == LET w == Train1(n) IN IF (w = <<"swap">> \/ w = <<"refine">>) /\ w[1] \in ToSet(Names(s)) THEN Call(s, w[1]) ELSE [W |-> W, b |-> b]
(* the linear model afterwards                                                                                            *)
Rows(s, n) == LET c == Fitted(s, n) IN IF Train1(n) = <<"refine">> /\ Tr.prune = 1 THEN KeptRowsUpTo(c.W, c.b, X, Tr.clear) ELSE 1..Len(c.W)
Sel(s, K) == LET q == SetToSortSeq(K, LAMBDA a, c : a < c) IN [r \in 1..Len(q) |-> s[q[r]]]
WAfter(s, n) == Sel(Fitted(s, n).W, Rows(s, n))
BAfter(s, n) == Sel(Fitted(s, n).b, Rows(s, n))
FAfter(s, n) == IF Computes(O, n, full) THEN FactOf(WAfter(s, n), BAfter(s, n), X) ELSE {}
Goes(s, n) == Computes(O, n, full) /\ Switches(O, FAfter(s, n))
Right(s, n) == Names(s) = Train1(n) \o (IF Goes(s, n) THEN <<"structure", "fact">> ELSE <<>>)
Labels(ids, tab) == [q \in 1..Len(ids) |-> tab[ids[q]]]
NewPart(s, n) == IF Goes(s, n) THEN LET w == WAfter(s, n) c == BAfter(s, n) A == Aligned(O, FAfter(s, n)) IN
                   [e \in 1..Len(X) |-> IF e \in ToSet(s.lab) THEN [j \in 1..Len(A) |-> IF Agrees(w, c, X, A[j], X[e]) THEN 1 ELSE 0] ELSE Given[e]]
                 ELSE plab
SwapFit(s, c) ==
      IF Tr.onpred = 1 THEN
           C(Distinct(c.ids) /\ ToSet(c.ids) \subseteq 1..Len(X) /\ Len(c.ids) = (IF Tr.sample = 0 THEN Len(X) ELSE Tr.sample), "P23.swap_model_trained_on_another_sample")
      \cup C(\A e \in ToSet(c.ids) : e \in 1..Len(X), "P23.unknown_point") \cup C(c.y = Labels(c.ids, Tr.alpred), "P23.swap_model_not_trained_on_predictions")
      ELSE C(c.ids = s.lab /\ c.y = Labels(s.lab, Tr.y), "P23.swap_model_not_trained_on_the_labels")
RefineFit(s, c) ==
       C(c.ids = s.lab /\ c.y = Labels(s.lab, Tr.y), "P23.linear_model_not_trained_on_the_labels")
  \cup C(c.x0W = W /\ c.x0b = b /\ c.k = Len(W), "P23.linear_model_starts_elsewhere")
Probe(s, n) == LET w == WAfter(s, n) c == BAfter(s, n) IN [e \in 1..Len(X) |-> \A k \in 1..Len(w) : M(w, c, k, X[e]) > 0]
Predict(s, n) ==
    IF n <= Tr.swap_iter THEN \A e \in 1..Len(X) : s.pl[e] = Tr.alpred[e] /\ s.pp[e] = 100 + e /\ s.pr[e] = 300 + e
    ELSE IF full \/ Goes(s, n) THEN \A e \in 1..Len(X) : s.pl[e] = 1 - Tr.alpred[e] /\ s.pp[e] = 500 + e /\ s.pr[e] = 700 + e
    ELSE LET p == TLCEval(Probe(s, n)) IN \A e \in 1..Len(X) : s.pl[e] = (IF p[e] THEN 1 ELSE 0) /\ (IF p[e] THEN s.pp[e] >= 999 ELSE s.pp[e] <= 1) /\ s.pr[e] \in 499..500
Fit(s) == LET n == it + 1 IN
    IF ~Right(s, n) THEN {IF Names(s) = Train1(n) THEN "P23.did_not_switch" ELSE IF Len(s.calls) > 0 /\ <<Names(s)[1]>> = Train1(n) THEN "P23.switched_too_early" ELSE "P23.trained_another_model"}
    ELSE  C(Train1(n) # <<"active">> \/ s.calls[1].ids = s.lab, "P23.active_learner_sees_other_data")
     \cup (IF Train1(n) = <<"swap">> THEN SwapFit(s, s.calls[1]) \cup C(s.calls[1].k = Tr.k /\ s.calls[1].retries = Tr.retries, "P23.swap_model_parameters") ELSE {})
     \cup (IF Train1(n) = <<"refine">> THEN RefineFit(s, s.calls[1])
             \cup C(s.calls[1].limit = (IF Tr.adapter = 1 THEN 3 + 2 * (n - Tr.swap_iter - 1) ELSE 9), "P23.iteration_limit") ELSE {})
     \cup (IF Train1(n) = <<"swap">> THEN C(s.calls[1].limit = (IF Tr.shared = 0 THEN 11 ELSE 9), "P23.iteration_limit") ELSE {})
     \cup (IF Goes(s, n) THEN
              LET A == Aligned(O, FAfter(s, n)) c == s.calls[2] IN
              C([j \in 1..Len(c.part) |-> ToSet(c.part[j])] = A /\ c.mode = 1, "P24.factorization_not_aligned_with_the_user") ELSE {})
     \cup (IF "fact" \in ToSet(Names(s)) THEN
              LET c == Call(s, "fact") P == TLCEval(NewPart(s, n)) IN
              C(c.ids = s.lab, "P23.factorized_learner_sees_other_data")
         \cup C(c.part = Labels(s.lab, P), IF Goes(s, n) THEN "P24.partial_labels_not_aligned" ELSE "P23.partial_labels_changed") ELSE {})
     \* the sparse model of a computed factorization is trained with the options given for it
     \cup C(Computes(O, n, full) /\ s.others # <<>> => s.others[1] = <<Tr.fmax, Tr.fstep, 7 * Tr.fl1 + 5 * Tr.fl2>>, "P23.options_of_the_factorization")
     \cup C(s.linear = (IF n <= Tr.swap_iter THEN 0 ELSE 1) /\ s.active = (IF n <= Tr.swap_iter THEN 1 ELSE 0), "P23.wrong_phase")
     \cup C(n <= Tr.swap_iter \/ (s.W = WAfter(s, n) /\ s.b = BAfter(s, n)), "P23.another_linear_model")
     \cup C(Predict(s, n), "P23.predictions_of_another_model")
Resets(s) ==
      C("active" \in ToSet(Names(s)) /\ (Tr.fact = 1 => "fact" \in ToSet(Names(s))), "P23.wrapped_learner_not_reset")
    \cup C(s.linear = 0 /\ s.active = 1, "P23.phase_after_a_reset")
    \cup C(s.W = <<>>, "P23.models_not_reset")
    \cup C(\A e \in 1..Len(X) : s.pl[e] = Tr.alpred[e] /\ s.pp[e] = 100 + e /\ s.pr[e] = 300 + e, "P23.predictions_of_another_model")
(* a factorization computed by itself: subspaces may be parts of several maximal ones, and count for each of them          *)
Parts(s) == LET dW == [k \in 1..Len(Tr.direct) |-> Tr.direct[k].w] db == [k \in 1..Len(Tr.direct) |-> Tr.direct[k].b] IN
      C(Len(s.fact) = Cardinality(ToSet(s.fact)) /\ {ToSet(f) : f \in ToSet(s.fact)} = FactOf(dW, db, X), "P24.factorization")
    \cup C(s.y = [q \in 1..Len(s.lab) |-> [j \in 1..Len(s.fact) |-> IF Agrees(dW, db, X, ToSet(s.fact[j]), X[s.lab[q]]) THEN 1 ELSE 0]], "P24.partial_labels")
Verdict(s) == IF s.op = "parts" THEN Parts(s) ELSE IF s.op = "clear" THEN Resets(s) ELSE Fit(s)
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t /\ usr' = U
    /\ LET s == Tr.steps[i'] n == it + 1 IN
       /\ Report(t, i', Verdict(s))
       /\ IF s.op = "parts" THEN UNCHANGED <<svars, W, b, plab>>
          ELSE IF s.op = "clear" THEN Reset /\ W' = <<>> /\ b' = <<>> /\ plab' = Given
          ELSE IF ~Right(s, n) THEN UNCHANGED <<full, cnt, before, W, b, plab>> /\ it' = n
          ELSE /\ W' = TLCEval(WAfter(s, n)) /\ b' = TLCEval(BAfter(s, n))
               /\ plab' = TLCEval(IF n = 1 THEN Given ELSE NewPart(s, n))
               /\ Train(O, TLCEval(FAfter(s, n)))
Spec == Init /\ [][Step]_vars
=============================================================================
