------------------------------ MODULE Strategy ------------------------------
(* How strategies order points. Hypotheses are labelings of all points: V is a sequence of tables <<label of point 1, *)
(* ..>>. A point p is scored by a key: the less, the more informative.                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

AbsD(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Votes(V, p) == Cardinality({h \in DOMAIN V : V[h][p] = 1})
(* --- Uncertainty: closeness of the share of positive votes to one half *)
Key(V, p) == AbsD(2 * Votes(V, p) - Len(V))
Cuts(V, p) == Votes(V, p) \in 1..(Len(V) - 1)

(* --- Entropy of a share of a among c votes, in millionths of nats *)
HTab == <<<<0, 0>>,
          <<0, 693147, 0>>,
          <<0, 636514, 636514, 0>>,
          <<0, 562335, 693147, 562335, 0>>,
          <<0, 500402, 673012, 673012, 500402, 0>>,
          <<0, 450561, 636514, 693147, 636514, 450561, 0>>,
          <<0, 410116, 598270, 682908, 682908, 598270, 410116, 0>>,
          <<0, 376770, 562335, 661563, 693147, 661563, 562335, 376770, 0>>>>
H(a, c) == IF c = 0 THEN 0 ELSE HTab[c][a + 1]
Given(V, p, y) == {h \in DOMAIN V : V[h][p] = y}
SumEntropy(V, hs, S) == FoldSet(LAMBDA q, acc : acc + H(Cardinality({h \in hs : V[h][q] = 1}), Cardinality(hs)), 0, S)
(* the entropy of the predictions for the points in S expected after the label of p, times the number of votes and of points in S *)
Expected(V, p, S) == LET P == Given(V, p, 1) N == Given(V, p, 0) IN Cardinality(P) * SumEntropy(V, P, S) + Cardinality(N) * SumEntropy(V, N, S)
(* p goes before q for entropy reduction, over the sample S: it cuts the hypotheses more evenly, or as evenly and leaves less entropy *)
EntropyBefore(V, p, q, S) ==
    /\ Cuts(V, p)
    /\ \/ Key(V, p) < Key(V, q)
       \/ Key(V, p) = Key(V, q) /\ Expected(V, p, S) + 3 * Len(V) * Cardinality(S) < Expected(V, q, S)
(* only the most even cuts are told apart by their entropy *)
EntropyLess(V, p, q, S, among) ==
    LET best == CHOOSE k \in {Key(V, o) : o \in among} : \A o \in among : k <= Key(V, o) IN
    Key(V, p) = best /\ EntropyBefore(V, p, q, S)

(* --- Ratio margin: the squared norms of the weights for either label, <<a, b>>; <<0, 0>> is unknown *)
RatioLess(m, k, tol) == m[1] + m[2] > 0 /\ k[1] + k[2] > 0 /\ Min2(m[1], m[2]) > Min2(k[1], k[2]) + tol

(* --- Probability, in eighths of the table tab, of classifiers trained on the labels in ys *)
Proba(form, tab, ys) == IF form = "flat" \/ ys = {0, 1} THEN 125000 * tab ELSE IF ys = {1} THEN 1000000 ELSE 0

(* --- Items: a point is a 0/1 vector over D, positive iff all of its items are in some unknown set *)
Items(x) == {j \in DOMAIN x : x[j] = 1}
Consistent(D, pos, neg) == {S \in SUBSET D : (\A x \in pos : Items(x) \subseteq S) /\ (\A x \in neg : ~(Items(x) \subseteq S))}
=============================================================================
