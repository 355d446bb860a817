------------------------------ MODULE Explore ------------------------------
(* A simulated exploration: initial sampling, labeling, label noise, training, callbacks and stopping.               *)
(*                                                                                                                   *)
(* A configuration c is a record                                                                                     *)
(*   truth : [points -> [y, p]]      final label and partial labels of each point                                     *)
(*   samp  : 0 or 1                  is there an initial sampler                                                      *)
(*   skip  : callbacks are computed every skip iterations                                                             *)
(*   maxit : iteration limit, or -1                                                                                   *)
(*   thr   : <<>>, or <<name, value>>: stop once this metric has this value                                           *)
(*   crit  : sequence of numbers of iterations after which a user-defined criterion holds                             *)
(*   full  : stop once this many points are labeled (another user-defined criterion), 0 for none                      *)
(*   noise : [on, skip, pct]         label noise, with its probability in percent                                     *)
(*   cbs   : for each callback, for each iteration, the metrics it reports as a sequence of <<name, value>>           *)
(*   lm    : sequence of iterations in which the learner logs a metric of its own when it is trained                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES labeled,   \* the points labeled so far in this run
          known,     \* the labels the model knows: [labeled -> [y, p]]
          iters,     \* iterations finished in this run
          shown,     \* metrics of the last iteration, a set of <<name, value>>
          fits       \* trainings in this run
evars == <<labeled, known, iters, shown, fits>>

RunInit == labeled = {} /\ known = <<>> /\ iters = 0 /\ shown = {} /\ fits = 0
StartRun == labeled' = {} /\ known' = <<>> /\ iters' = 0 /\ shown' = {} /\ fits' = 0

Points(c) == DOMAIN c.truth
HasBoth(k) == {0, 1} \subseteq {k[x].y : x \in DOMAIN k}
Exploring(c, k) == c.samp = 0 \/ HasBoth(k)
PhaseName(c, k) == IF Exploring(c, k) THEN "exploration" ELSE "initial_sampling"

NoiseCalled(c) == c.noise.on = 1 /\ Exploring(c, known)
NoiseActive(c) == NoiseCalled(c) /\ iters > c.noise.skip

(* what noise may make of the true labels [y, p] of a point *)
Noisy(c, l) ==
    LET flip == IF l.y = 0 THEN {[y |-> 1, p |-> [j \in 1..Len(l.p) |-> 1]]}
                ELSE {[y |-> 0, p |-> [l.p EXCEPT ![j] = 0]] : j \in 1..Len(l.p)}
    IN CASE c.noise.pct = 0   -> {l}
         [] c.noise.pct = 100 -> flip
         [] OTHER             -> {l} \cup flip

(* metrics *)
OfCallbacks(c, it) ==
    LET Rep(j) == IF it <= Len(c.cbs[j]) THEN c.cbs[j][it] ELSE <<>>
        names == {x[1] : x \in UNION {ToSet(Rep(j)) : j \in 1..Len(c.cbs)}}
        lastj(nm) == CHOOSE j \in 1..Len(c.cbs) : (\E x \in ToSet(Rep(j)) : x[1] = nm)
                        /\ \A k \in (j + 1)..Len(c.cbs) : \A x \in ToSet(Rep(k)) : x[1] # nm
    IN {CHOOSE x \in ToSet(Rep(lastj(nm))) : x[1] = nm : nm \in names}
OfLearner(c, it, trained) == IF trained /\ it \in ToSet(c.lm) THEN {<<"lm", 10 * it>>} ELSE {}

(* stopping *)
StopReason(c, it, m, lbl) ==
         (IF c.maxit >= 0 /\ it > c.maxit THEN {"limit"} ELSE {})
    \cup (IF c.thr # <<>> /\ \E x \in m : x[1] = c.thr[1] /\ x[2] >= c.thr[2] THEN {"threshold"} ELSE {})
    \cup (IF it \in ToSet(c.crit) THEN {"user"} ELSE {})
    \cup (IF c.full > 0 /\ Cardinality(lbl) >= c.full THEN {"size"} ELSE {})
    \cup (IF lbl = Points(c) THEN {"labeled"} ELSE {})
Stopped(c) == StopReason(c, iters, shown, labeled) # {}

(* callbacks are due at iterations 1, 1 + skip, 1 + 2 skip, ... and when the run stops anyway *)
CallbacksDue(c, it, m, lbl) == (it - 1) % c.skip = 0 \/ StopReason(c, it, m, lbl) # {}

(* One iteration: b is the batch of points shown to the user, l the labels given to the model for them.              *)
Iterate(c, b, l) ==
    LET k2 == l @@ known
        lbl2 == labeled \cup ToSet(b)
        it2 == iters + 1
        trained == Exploring(c, k2)
        base == OfLearner(c, it2, trained)
    IN /\ labeled' = lbl2
       /\ known' = k2
       /\ iters' = it2
       /\ fits' = IF trained THEN fits + 1 ELSE fits
       /\ shown' = base \cup (IF CallbacksDue(c, it2, base, lbl2) THEN OfCallbacks(c, it2) ELSE {})

LabelChoices(c, b) ==
    IF NoiseActive(c) THEN {f \in [ToSet(b) -> UNION {Noisy(c, c.truth[x]) : x \in ToSet(b)}] : \A x \in ToSet(b) : f[x] \in Noisy(c, c.truth[x])}
    ELSE {[x \in ToSet(b) |-> c.truth[x]]}
=============================================================================
