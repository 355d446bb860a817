-------------------------------- MODULE Args --------------------------------
(* Which configurations are admitted: the range of every numeric argument, the names of every choice, and pairs of    *)
(* arguments which have to fit. A configuration is admitted iff all of its arguments are. A setting of a penalty is a  *)
(* state: it changes only when the new value is admitted.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
VARIABLES setting    \* the penalty's value in halves
(* a value: a number (in halves), infinity, or nothing *)
Num(h) == [k |-> "num", h |-> h]
Inf == [k |-> "inf", h |-> 0]
None == [k |-> "none", h |-> 0]
Whole(v) == v.k = "num" /\ v.h % 2 = 0
Kinds == {"posint", "posint_or_none", "natural_or_inf", "natural", "positive", "positive_or_none", "non_negative", "unit"}
Admits(kind, v) ==
    CASE kind = "posint"           -> Whole(v) /\ v.h > 0
      [] kind = "posint_or_none"   -> v = None \/ (Whole(v) /\ v.h > 0)
      [] kind = "natural"          -> Whole(v) /\ v.h >= 0
      [] kind = "natural_or_inf"   -> v = Inf \/ (Whole(v) /\ v.h >= 0)
      [] kind = "positive"         -> v.k = "num" /\ v.h > 0
      [] kind = "positive_or_none" -> v = None \/ (v.k = "num" /\ v.h > 0)
      [] kind = "non_negative"     -> v.k = "num" /\ v.h >= 0
      [] kind = "unit"             -> v.k = "num" /\ 0 <= v.h /\ v.h <= 2

P(S, kind) == [p \in S |-> kind]
Iteration == P({"gtol", "rel_tol"}, "non_negative") @@ P({"max_iter", "batch_size"}, "posint_or_none")
Sampler == P({"warmup", "thin"}, "posint")
Exploration == P({"subsampling"}, "posint_or_none") @@ P({"callback_skip"}, "posint")
Target == [
    pool_exploration    |-> Exploration,
    cli_exploration     |-> Exploration,
    manager             |-> Exploration,
    max_iter_reached    |-> P({"max_iters"}, "natural_or_inf"),
    noise               |-> P({"noise"}, "unit") @@ P({"skip_initial"}, "natural"),
    stratified          |-> P({"pos", "neg"}, "posint"),
    random_initial      |-> P({"sample_size"}, "posint"),
    random_sampler      |-> P({"batch_size"}, "posint"),
    polytope            |-> P({"tol"}, "positive"),
    persistent_polytope |-> P({"tol"}, "positive"),
    dual_space          |-> P({"tol"}, "positive"),
    factorized_dual     |-> P({"tol"}, "positive"),
    disagreement        |-> P({"background_sample_size"}, "posint") @@ P({"background_sample_weight"}, "positive"),
    linear_vs           |-> Sampler,
    kernel_vs           |-> Sampler @@ P({"gamma"}, "positive_or_none") @@ P({"jitter"}, "positive"),
    poly_vs             |-> P({"degree"}, "posint") @@ P({"gamma"}, "positive_or_none"),
    subspatial_vs       |-> Sampler @@ P({"gamma"}, "positive_or_none") @@ P({"jitter"}, "positive"),
    entropy_vs          |-> Sampler @@ P({"data_sample_size"}, "posint_or_none"),
    sampler             |-> Sampler,
    chains              |-> P({"warmup"}, "posint"),
    rounding            |-> P({"max_iter"}, "posint_or_none"),
    sphere_descent      |-> P({"grad_norm_threshold", "rel_tol"}, "positive") @@ P({"max_iter"}, "posint_or_none") @@ P({"step_size"}, "positive_or_none"),
    ellipsoid           |-> P({"dim"}, "posint"),
    laplace             |-> P({"prior_std", "tol"}, "positive"),
    kernel_laplace      |-> P({"prior_std", "tol"}, "positive"),
    bayes_linear        |-> P({"prior_std", "tol"}, "positive"),
    bayes_kernel        |-> P({"prior_std", "tol"}, "positive"),
    swap                |-> P({"swap_iter", "num_subspaces", "retries"}, "posint") @@ P({"train_sample_size"}, "posint_or_none") @@ P({"prune_threshold"}, "unit"),
    fact_manager        |-> P({"compute_every", "stable_count", "max_iter"}, "posint") @@ P({"step_size", "l1_penalty", "l2_sqrt_penalty"}, "positive"),
    flm_uncertainty     |-> P({"penalty"}, "non_negative") @@ P({"max_iter"}, "posint_or_none"),
    l1_penalty          |-> P({"penalty"}, "positive"),
    l2_penalty          |-> P({"penalty"}, "positive"),
    group_penalty       |-> P({"penalty"}, "positive"),
    sparse_group        |-> P({"l1_penalty", "l2_sqrt_penalty"}, "positive"),
    interaction         |-> P({"penalty"}, "positive"),
    huber               |-> P({"penalty", "delta"}, "positive"),
    brute_force         |-> P({"max_partitions", "max_dim"}, "posint_or_none"),
    greedy              |-> P({"max_partitions", "max_dim"}, "posint_or_none"),
    bfgs                |-> P({"gtol", "rel_tol"}, "non_negative") @@ P({"max_iter"}, "posint_or_none"),
    gradient_descent    |-> Iteration @@ P({"momentum"}, "unit") @@ P({"step_size"}, "positive_or_none"),
    proximal            |-> Iteration @@ P({"step_size"}, "positive_or_none"),
    fista               |-> Iteration @@ P({"step_size"}, "positive_or_none"),
    adam                |-> Iteration @@ P({"beta1", "beta2"}, "unit") @@ P({"epsilon"}, "positive") @@ P({"step_size"}, "positive_or_none"),
    power_steps         |-> P({"step_size", "power"}, "positive") @@ P({"adapt_every"}, "posint"),
    exponential_steps   |-> P({"step_size", "decay"}, "positive") @@ P({"adapt_every"}, "posint"),
    fixed_steps         |-> P({"step_size"}, "positive"),
    training            |-> P({"retries"}, "posint"),
    subspaces           |-> P({"factorization"}, "posint"),
    pruning             |-> P({"threshold"}, "unit") @@ P({"tol"}, "positive"),
    gaussian_kernel     |-> P({"gamma"}, "positive_or_none"),
    poly_kernel         |-> P({"gamma"}, "positive_or_none") @@ P({"degree"}, "posint"),
    jittered_kernel     |-> P({"jitter"}, "positive") ]
Admitted(target, args) == \A j \in 1..Len(args) : Admits(Target[target][args[j][1]], args[j][2])

Modes == {"positive", "negative", "persist", "categorical", "multiset"}
Choice == [
    polytope_mode  |-> Modes,
    factorized_mode |-> Modes,
    subspace_mode  |-> {"numerical", "categorical", "multiset", "positive", "negative", "persist"},
    kernel         |-> {"linear", "rbf", "gaussian", "poly"},
    vs_kernel      |-> {"linear", "rbf", "gaussian", "poly"},
    linear_bayes   |-> {"laplace", "stan"},
    kernel_bayes   |-> {"laplace", "kernel-laplace", "stan"},
    prior          |-> {"improper", "gaussian"},
    rounding       |-> {"default", "opt"},
    retraction     |-> {"sphere", "project"},
    score          |-> {"true_positive", "false_positive", "true_negative", "false_negative", "accuracy", "precision", "recall", "fscore"} ]
Names == UNION {Choice[c] : c \in DOMAIN Choice} \cup {"other", "", "roc"}
(* several names at once: each of them has to be known *)
Known(c, names) == ToSet(names) \subseteq Choice[c]

(* two numbers which have to be the same *)
Fits == {"modes_of_model", "modes_of_subspaces", "modes_of_dual_space", "seeds", "single_seed", "partial_rows", "index_rows", "partial_dimensions", "weights"}
Fit(f, m, n) == CASE f = "single_seed"        -> m = 1
                  [] f = "partial_dimensions" -> n = 2
                  [] OTHER -> m = n
(* no partition of m attributes into at most n parts of at most k attributes *)
Possible(m, n, k) == n * k >= m

ArgsInit == setting = 2
Set(v) == setting' = IF Admits("positive", v) THEN v.h ELSE setting
=============================================================================
