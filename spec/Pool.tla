-------------------------------- MODULE Pool --------------------------------
(* What is computed from a pool of points, some of them labeled: queries, random and stratified samples, the training *)
(* sets of query by disagreement, and metrics. Points are numbers, st[p] is "U", "I" (inferred) or "L", and labels    *)
(* are 0 or 1. Fractions are pairs <<numerator, denominator>>.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Min2(a, b) == IF a <= b THEN a ELSE b
Unlabeled(st) == {p \in DOMAIN st : st[p] # "L"}
Labeled(st) == {p \in DOMAIN st : st[p] = "L"}

(* --- Queries: the candidates are all unlabeled points, or a random sample of the requested size (0: none)          *)
SampleSize(U, sub) == IF sub = 0 THEN Cardinality(U) ELSE Min2(sub, Cardinality(U))
(* p has minimal score among some sample iff enough points score no better *)
Selectable(U, score, sub) == {p \in U : Cardinality({q \in U : score[q] >= score[p]}) >= SampleSize(U, sub)}

(* --- Confusion counts of pairs <<label, prediction>>, and scores *)
Count(ps, a, b) == Cardinality({k \in 1..Len(ps) : ps[k] = <<a, b>>})
Counts(ps) == [tp |-> Count(ps, 1, 1), fp |-> Count(ps, 0, 1), fn |-> Count(ps, 1, 0), tn |-> Count(ps, 0, 0)]
ScoreNames == {"true_positive", "false_positive", "false_negative", "true_negative", "accuracy", "precision", "recall", "fscore"}
Score(c, name) ==
    CASE name = "true_positive"  -> <<c.tp, 1>>
      [] name = "false_positive" -> <<c.fp, 1>>
      [] name = "false_negative" -> <<c.fn, 1>>
      [] name = "true_negative"  -> <<c.tn, 1>>
      [] name = "accuracy"       -> <<c.tp + c.tn, c.tp + c.tn + c.fp + c.fn>>
      [] name = "precision"      -> <<c.tp, c.tp + c.fp>>
      [] name = "recall"         -> <<c.tp, c.tp + c.fn>>
      [] name = "fscore"         -> <<2 * c.tp, 2 * c.tp + c.fp + c.fn>>
(* of predictions 0, 1 (unknown) and 2 (positive) *)
ThreeSet(pred) == LET pos == Cardinality({k \in 1..Len(pred) : pred[k] = 2})
                      unk == Cardinality({k \in 1..Len(pred) : pred[k] = 1})
                  IN <<pos, pos + unk>>
(* A value is recorded in millionths, rounded; zero stands for a fraction without denominator. *)
IsFraction(v, f) == IF f[2] = 0 THEN v = 0 ELSE v * f[2] - f[1] * 1000000 \in (-f[2])..f[2]

(* --- Query by disagreement: training rows are <<point, label, weight>>, a weight being "one" or "small"             *)
Ones(st, lab) == {<<p, lab[p], "one">> : p \in Labeled(st)}
Biased(st, lab, B, y) == Ones(st, lab) \cup {<<p, y, "small">> : p \in B}
=============================================================================
