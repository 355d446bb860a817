------------------------------- MODULE Kernel -------------------------------
(* Kernel functions on integer points, and transformers which map points to their kernel values with the points of a fit.      *)
(* k is a record of its kind, degree, gamma (quarters for polynomials, multiples of ln 2 for gaussians, 0 for the default,      *)
(* which is one over the number of features) and c (halves). Values are in units of 1 / Scale(k).                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
AbsV(x) == IF x < 0 THEN -x ELSE x
SumOf(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Dot(x, y) == SumOf([j \in 1..Len(x) |-> x[j] * y[j]])
Dist2(x, y) == SumOf([j \in 1..Len(x) |-> (x[j] - y[j]) * (x[j] - y[j])])
Scale(k) == CASE k.kind = "linear" -> 4 [] k.kind = "poly" -> Pow(12, k.degree) [] k.kind = "rbf" -> 32768
(* 32768 exp(-1 / D)                                                                                                            *)
Decay == <<12055, 19875, 23479, 25520>>
ExpOf(n, d) == FoldLeft(LAMBDA f, e : (f * Decay[d] + 16384) \div 32768, 32768, [j \in 1..n |-> j])
Value(k, x, y) ==
    CASE k.kind = "linear" -> 4 * Dot(x, y)
      [] k.kind = "poly" -> Pow((IF k.gamma = 0 THEN 12 \div Len(x) ELSE 3 * k.gamma) * Dot(x, y) + 6 * k.c, k.degree)
      [] k.kind = "rbf" -> IF k.gamma = 0 THEN ExpOf(Dist2(x, y), Len(x)) ELSE LET e == k.gamma * Dist2(x, y) IN IF e > 15 THEN 0 ELSE 32768 \div Pow(2, e)
(* tolerance of a value, in the same units                                                                                       *)
Slack(k, x, y) == IF k.kind = "rbf" THEN 2 + (IF k.gamma = 0 THEN Dist2(x, y) ELSE 0) ELSE 0
Select(x, s) == [j \in 1..Len(s) |-> x[s[j]]]
SelectAll(X, s) == [r \in 1..Len(X) |-> Select(X[r], s)]
All(n) == [j \in 1..n |-> j]
(* the features x, their squares if asked for, and the products of two of them                                                   *)
Products(x) == FlattenSeq([i \in 1..Len(x) |-> [j \in 1..(Len(x) - i) |-> x[i] * x[i + j]]])
Interactions(x, squares) == x \o (IF squares THEN [j \in 1..Len(x) |-> x[j] * x[j]] ELSE <<>>) \o Products(x)
=============================================================================
