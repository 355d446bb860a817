-------------------------------- MODULE Swap --------------------------------
(* The swap learner: an active learner, then a factorized linear model, then a factorized active learner.               *)
(* o: options swap_iter, every, repeat, fact (0: no factorized learner), user (the user's subspaces).                   *)
EXTENDS Factor
VARIABLES it, full, cnt, before
svars == <<it, full, cnt, before>>
None == <<>>
SwapInit == it = 0 /\ full = FALSE /\ cnt = 0 /\ before = None
PhaseOf(o, n) == IF n <= o.swap_iter THEN "active" ELSE "factorization"
IsSwap(o, n) == n = o.swap_iter + 1
(* a factorization is computed in the n-th training                                                                      *)
Computes(o, n, f) == o.fact = 1 /\ n > o.swap_iter /\ ~f /\ (n - o.swap_iter - 1) % o.every = 0
(* subspaces of a factorization F (a set) are inside of one subspace of the user each, one to one                         *)
Home(o, s) == {j \in 1..Len(o.user) : s \subseteq o.user[j]}
Compatible(o, F) == /\ Cardinality(F) = Len(o.user)
                    /\ \A s \in F : Cardinality(Home(o, s)) = 1
                    /\ \A s, r \in F : s = r \/ Home(o, s) # Home(o, r)
Aligned(o, F) == [j \in 1..Len(o.user) |-> CHOOSE s \in F : Home(o, s) = {j}]
CountAfter(F) == IF before # None /\ before[1] = F THEN cnt + 1 ELSE 0
Switches(o, F) == CountAfter(F) >= o.repeat /\ Compatible(o, F)
(* a training in which F is computed, if any is                                                                          *)
Train(o, F) ==
    LET n == it + 1 IN
    /\ it' = n
    /\ IF Computes(o, n, full) THEN cnt' = CountAfter(F) /\ before' = <<F>> /\ full' = Switches(o, F)
       ELSE UNCHANGED <<cnt, before, full>>
Reset == it' = 0 /\ full' = FALSE /\ cnt' = 0 /\ before' = None
----------------------------------------------------------------------------
(* the factorization of a model without its irrelevant subspaces, and the labels it gives to the subspaces: every one of   *)
(* those inside agrees; margins use relevant attributes only (units of 10; weights are in units of 20, biases of 10)         *)
M(W, b, k, x) == 2 * Dot(W[k], x) + b[k]
KeptRowsUpTo(W, b, X, m) == {k \in 1..Len(W) : (\E j \in 1..Len(W[k]) : W[k][j] # 0) /\ \E e \in 1..Len(X) : M(W, b, k, X[e]) <= m}
KeptRows(W, b, X) == KeptRowsUpTo(W, b, X, 0)
Supports(W, K) == {RelevantAttrs(W[k]) : k \in K}
FactOf(W, b, X) == Maximal(Supports(W, KeptRows(W, b, X)))
Agrees(W, b, X, s, x) == \A k \in KeptRows(W, b, X) : RelevantAttrs(W[k]) \subseteq s =>
    2 * SumOf([j \in 1..Len(x) |-> IF j \in RelevantAttrs(W[k]) THEN W[k][j] * x[j] ELSE 0]) + b[k] > 0
=============================================================================
