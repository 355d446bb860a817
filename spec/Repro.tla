------------------------------- MODULE Repro -------------------------------
(* Repeated explorations of one learner: a run is determined by its configuration and its seed, whatever happened    *)
(* before it to the exploration object, the learner, the global random number generators, or elsewhere.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES memo    \* [<<configuration, seed>> -> [hist, whole, last]]: what is known of each run
                  \* hist: labeled batches; whole: it was read to its end; last: predictions at the end, if whole

Known(k) == k \in DOMAIN memo
(* What is now known of run k, having read h of it, to its end or not *)
Learn(k, h, w, l) ==
    IF Known(k) /\ (Len(memo[k].hist) > Len(h) \/ memo[k].whole) THEN memo
    ELSE (k :> [hist |-> h, whole |-> w, last |-> l]) @@ memo
SameRun(k, h, w, l) ==
    Known(k) => /\ (IsPrefix(h, memo[k].hist) \/ IsPrefix(memo[k].hist, h))
                /\ memo[k].whole => Len(h) <= Len(memo[k].hist)
                /\ w => Len(h) >= Len(memo[k].hist)
                /\ (w /\ memo[k].whole) => l = memo[k].last
=============================================================================
