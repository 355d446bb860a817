------------------------------- MODULE Factor -------------------------------
(* Partitions of attributes and their search; factorizations derived from relevance; factorized linear models.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
AbsV(x) == IF x < 0 THEN -x ELSE x
SumOf(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Dot(a, x) == FoldLeftDomain(LAMBDA s, j : s + a[j] * x[j], 0, a)
----------------------------------------------------------------------------
(* set partitions                                                                                                      *)
RECURSIVE Partitions(_)
Partitions(S) == IF S = {} THEN {{}} ELSE
    LET x == CHOOSE x \in S : TRUE IN
    UNION {{P \cup {{x}}} \cup {(P \ {b}) \cup {b \cup {x}} : b \in P} : P \in Partitions(S \ {x})}
(* limits: 0 stands for none                                                                                           *)
Limit(l, n) == IF l = 0 \/ l > n THEN n ELSE l
Possible(n, maxk, maxd) == Limit(maxk, n) * Limit(maxd, n) >= n
Admissible(n, maxk, maxd) == {P \in Partitions(1..n) : Cardinality(P) <= Limit(maxk, n) /\ \A b \in P : Cardinality(b) <= Limit(maxd, n)}
Singles(n) == {{k} : k \in 1..n}
Merges(P, maxd) == {(P \ {a, b}) \cup {a \cup b} : <<a, b>> \in {ab \in P \X P : ab[1] # ab[2] /\ Cardinality(ab[1] \cup ab[2]) <= maxd}}
----------------------------------------------------------------------------
(* factorization of relevant attribute sets                                                                            *)
Maximal(R) == {s \in R : ~\E r \in R : s # r /\ s \subseteq r}
(* attributes with more than the average part of the weights; for groups of attributes, groups                         *)
RelevantAttrs(w) == {j \in 1..Len(w) : Len(w) * AbsV(w[j]) > SumOf([k \in 1..Len(w) |-> AbsV(w[k])])}
GroupSum(w, g) == SumOf([k \in 1..Len(w) |-> IF k \in g THEN AbsV(w[k]) ELSE 0])
RelevantOfGroups(w, G) == UNION {g \in G : Cardinality(G) * GroupSum(w, g) > GroupSum(w, 1..Len(w))}
(* no group is at the average exactly                                                                                  *)
Clear(w, G) == \A g \in G : Cardinality(G) * GroupSum(w, g) # GroupSum(w, 1..Len(w))
----------------------------------------------------------------------------
(* Models have weights and a bias per subspace. Margins are in units of 40, where probabilities are 0, 1 / 2 or 1        *)
(* (in eighths: 0, 4 or 8).                                                                                            *)
Margin(W, b, k, x) == Dot(W[k], x) + b[k]
Partial(m) == IF m > 0 THEN 8 ELSE IF m < 0 THEN 0 ELSE 4
Halves(P) == Cardinality({k \in 1..Len(P) : P[k] = 4})
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
(* product in units of 2^-10                                                                                           *)
Product(P) == IF \E k \in 1..Len(P) : P[k] = 0 THEN 0 ELSE Pow2(10 - Halves(P))
(* logarithmic loss in units of 40: a positive point costs all negative margins, a negative one the least positive one   *)
PosPart(m) == IF m > 0 THEN m ELSE 0
Cost(ms, y) == IF y = 1 THEN SumOf([k \in 1..Len(ms) |-> PosPart(-ms[k])])
               ELSE IF \E k \in 1..Len(ms) : ms[k] <= 0 THEN 0 ELSE Min(ToSet(ms))
Loss(W, b, X, y) == SumOf([i \in 1..Len(X) |-> Cost([k \in 1..Len(W) |-> Margin(W, b, k, X[i])], y[i])])
RestrictTo(w, s) == [j \in 1..Len(w) |-> IF j \in s THEN w[j] ELSE 0]
(* subspaces which matter for some point                                                                               *)
Kept(W, b, X) == {k \in 1..Len(W) : (\E j \in 1..Len(W[k]) : W[k][j] # 0) /\ \E i \in 1..Len(X) : Margin(W, b, k, X[i]) <= 0}
=============================================================================
