------------------------------ MODULE Subspace ------------------------------
(* Learners over subspaces: each sees its own columns and its own partial label; answers are combined.                *)
(* Values of subspaces are integers: probabilities in eighths, labels 0 / 1, scores; a combination is an integer in    *)
(* the units of Unit: labels in halves of 2, probabilities and losses in 1 / 262144 = 1 / 8^6.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
One == 262144
MinOf(s) == Min(ToSet(s))
MaxOf(s) == Max(ToSet(s))
SumOf(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
AbsV(x) == IF x < 0 THEN -x ELSE x

(* products of at most six probabilities in eighths, losses of at most three *)
Prod(p) == FoldLeft(LAMBDA a, x : a * x, 1, p) * Pow(8, 6 - Len(p))
Proba(name, p) ==
    CASE name = "min" -> MinOf(p) * Pow(8, 5)
      [] name = "max" -> MaxOf(p) * Pow(8, 5)
      [] name = "prod" -> Prod(p)
      [] name = "last" -> p[Len(p)] * Pow(8, 5)             \* a function given by the user
Label(name, proba, y, p) ==
    CASE name = "and" -> MinOf(y)
      [] name = "or" -> MaxOf(y)
      [] name = "none" -> IF 2 * Proba(proba, p) > One THEN 1 ELSE 0
      [] name = "odd" -> SumOf(y) % 2                        \* a function given by the user
Rank(name, r) ==
    CASE name = "sum" -> SumOf(r) * One
      [] name = "square" -> SumOf([k \in 1..Len(r) |-> r[k] * r[k]]) * One
      [] name = "max" -> MaxOf(r) * One                      \* a function given by the user
(* losses of version spaces: 1 - 2 p (1 - p) = (64 - 2 a (8 - a)) / 64                                                *)
Loss(name, p) ==
    CASE name = "greedy" -> FoldLeft(LAMBDA x, a : x * (64 - 2 * a * (8 - a)), 1, p) * Pow(64, 3 - Len(p))
      [] name = "squared" -> SumOf([k \in 1..Len(p) |-> (p[k] - 4) * (p[k] - 4)]) * Pow(8, 4)
      [] name = "product" -> AbsV(Prod(p) - One \div 2)
      [] name = "max" -> MaxOf(p) * Pow(8, 5)                \* a function given by the user

(* Stub learners answer according to what they were trained on since they are new, or reset: h condenses it. A value    *)
(* of a row is made of the columns it is given, in their order.                                                        *)
Row(x, cols) == [c \in 1..Len(cols) |-> x[cols[c]]]
Weigh(x) == FoldLeftDomain(LAMBDA a, c : a + c * x[c], 0, x)
Train(h, X, y) == (7 * h + 1 + FoldLeftDomain(LAMBDA a, j : a + j * (2 * y[j] + 1) * Weigh(X[j]), 0, X)) % 97
Answer(h, x) == (h + 5 * Weigh(x)) % 97
StubProba(a) == a % 9
StubLabel(a) == (a \div 9) % 2
StubScore(a) == a % 7

(* What subspaces of a version space know of a value after a training set: probability, or -1 if any; y are the labels  *)
(* of the rows in the subspace, v their values.                                                                        *)
Bits(v) == {b \in 0..4 : (v \div Pow(2, b)) % 2 = 1}
MultiPos(v, y) == UNION {Bits(v[j]) : j \in {j \in 1..Len(v) : y[j] = 1}}
(* no set of items with the positive ones, and without any negative row, contains x                                    *)
MultiNo(v, y, x) == \E j \in 1..Len(v) : y[j] = 0 /\ Bits(v[j]) \subseteq Bits(x) \cup MultiPos(v, y)
Known(mode, v, y, x) ==
    LET same == {j \in 1..Len(v) : v[j] = x} IN
    CASE mode \in {"categorical", "numerical"} -> IF same # {} THEN 8 * y[CHOOSE j \in same : TRUE] ELSE IF mode = "categorical" THEN 4 ELSE -1
      [] mode = "multiset" -> IF Bits(x) \subseteq MultiPos(v, y) THEN 8 ELSE IF MultiNo(v, y, x) THEN 0 ELSE -1
=============================================================================
