------------------------------ MODULE Penalty ------------------------------
(* Penalties on a weight matrix: values, gradients, proximal points and subgradients. A penalty is a record p of its kind,   *)
(* weights a (and b) in quarters, delta in quarters, and groups of columns (all columns in one group when not given).        *)
(* Numbers are in units of 1 / U; q is a matrix in quarters.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
U == 1024
AbsV(x) == IF x < 0 THEN -x ELSE x
SignV(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
MaxV(a, b) == IF a > b THEN a ELSE b
SumOf(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Total(m) == SumOf([r \in 1..Len(m) |-> SumOf(m[r])])
Map(m, F(_)) == [r \in 1..Len(m) |-> [c \in 1..Len(m[r]) |-> F(m[r][c])]]
Map2(m, n, F(_, _)) == [r \in 1..Len(m) |-> [c \in 1..Len(m[r]) |-> F(m[r][c], n[r][c])]]
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)
(* norm of the columns g of a row                                                                                             *)
NormU(row, g) == ISqrt(SumOf([c \in 1..Len(row) |-> IF c \in g THEN row[c] * row[c] ELSE 0]))
Units(q) == Map(q, LAMBDA z : 256 * z)
GroupsOf(p, n) == IF p.groups = <<>> THEN {1..n} ELSE {ToSet(p.groups[k]) : k \in 1..Len(p.groups)}
Grouped(p, n) == UNION GroupsOf(p, n)
----------------------------------------------------------------------------
L1Loss(q) == Total(Map(q, LAMBDA z : 256 * AbsV(z)))
GroupLoss(q, G) == LET x == Units(q) IN SumOf([r \in 1..Len(x) |-> SumOf([k \in 1..Cardinality(G) |-> NormU(x[r], SetToSeq(G)[k])])])
Quarter(a, z) == (a * (z \div 4)) + ((a * (z % 4)) \div 4)
Loss(p, q) ==
    LET n == Len(q[1]) IN
    CASE p.kind = "l1" -> Quarter(p.a, L1Loss(q))
      [] p.kind = "l2" -> Quarter(p.a, 64 * Total(Map(q, LAMBDA z : z * z)))
      [] p.kind = "l2sqrt" -> Quarter(p.a, GroupLoss(q, GroupsOf(p, n)))
      [] p.kind = "sgl" -> Quarter(p.a, IF p.groups = <<>> THEN L1Loss(q) ELSE GroupLoss(q, GroupsOf(p, n))) + Quarter(p.b, GroupLoss(q, {1..n}))
      [] p.kind = "inter" -> p.a * SumOf([c \in 1..n |-> SumOf([r \in 1..Len(q) |-> SumOf([s \in 1..Len(q) |-> IF s > r THEN q[r][c] * q[r][c] * q[s][c] * q[s][c] ELSE 0])])])
      [] p.kind = "huber" -> (32 * p.a * Total(Map(q, LAMBDA z : IF AbsV(z) <= p.d THEN z * z ELSE 2 * p.d * AbsV(z) - p.d * p.d))) \div p.d
----------------------------------------------------------------------------
(* gradient of the smooth penalties                                                                                           *)
SmoothGrad(p, x) ==
    CASE p.kind = "l2" -> Map(x, LAMBDA z : (p.a * z) \div 2)
      [] p.kind = "huber" -> Map(x, LAMBDA z : (p.a * (IF z > 256 * p.d THEN 256 * p.d ELSE IF z < -256 * p.d THEN -256 * p.d ELSE z)) \div p.d)
      [] p.kind = "inter" -> LET q == Map(x, LAMBDA z : z \div 256) IN
            [r \in 1..Len(q) |-> [c \in 1..Len(q[1]) |-> 8 * p.a * q[r][c] * SumOf([s \in 1..Len(q) |-> IF s # r THEN q[s][c] * q[s][c] ELSE 0])]]
Smooth(p) == p.kind \in {"l2", "huber", "inter"}
----------------------------------------------------------------------------
(* the proximal point: entries, or groups of a row, are moved towards zero by t                                               *)
Soft(z, t) == SignV(z) * MaxV(AbsV(z) - t, 0)
Shrink(row, g, t) == LET n == NormU(row, g) IN [c \in 1..Len(row) |-> IF c \notin g THEN row[c] ELSE IF n <= t THEN 0 ELSE row[c] - ((row[c] * t) \div n)]
RECURSIVE ShrinkAll(_, _, _)
ShrinkAll(row, G, t) == IF G = {} THEN row ELSE LET g == CHOOSE g \in G : TRUE IN ShrinkAll(Shrink(row, g, t), G \ {g}, t)
First(p, x, t) == IF p.kind = "l1" \/ (p.kind = "sgl" /\ p.groups = <<>>) THEN Map(x, LAMBDA z : Soft(z, t))
                  ELSE [r \in 1..Len(x) |-> ShrinkAll(x[r], GroupsOf(p, Len(x[r])), t)]
(* eta is in quarters, hence a * eta in sixteenths                                                                            *)
Prox(p, x, eta) ==
    CASE p.kind \in {"l1", "l2sqrt"} -> First(p, x, 64 * p.a * eta)
      [] p.kind = "sgl" -> LET y == First(p, x, 64 * p.a * eta) IN [r \in 1..Len(x) |-> Shrink(y[r], 1..Len(y[r]), 64 * p.b * eta)]
      [] p.kind = "l2" -> Map(x, LAMBDA z : (8 * z) \div (p.a * eta + 8))
HasProx(p) == p.kind \in {"l1", "l2", "l2sqrt", "sgl"}
----------------------------------------------------------------------------
(* how far v is from the subgradients at x: the excesses, none of which is positive for a subgradient                          *)
Minus(u, v) == [c \in 1..Len(u) |-> u[c] - v[c]]
Direction(row, g, a) == LET n == NormU(row, g) IN [c \in 1..Len(row) |-> IF c \in g /\ n > 0 THEN (256 * a * row[c]) \div n ELSE 0]
RowExcess(p, v, row) ==     \* of the part which is a sum over entries or groups
    LET n == Len(row) IN
    IF p.kind = "l1" \/ (p.kind = "sgl" /\ p.groups = <<>>)
    THEN {IF row[c] = 0 THEN AbsV(v[c]) - 256 * p.a ELSE AbsV(v[c] - SignV(row[c]) * 256 * p.a) : c \in 1..n}
    ELSE {IF \A c \in g : row[c] = 0 THEN NormU(v, g) - 256 * p.a ELSE NormU(Minus(v, Direction(row, g, p.a)), g) : g \in GroupsOf(p, n)}
         \cup {AbsV(v[c]) : c \in (1..n) \ Grouped(p, n)}
Excess(p, v, x) ==
    IF Smooth(p) THEN LET g == SmoothGrad(p, x) IN {MaxV(0, Max({AbsV(v[r][c] - g[r][c]) : r \in 1..Len(x), c \in 1..Len(x[1])}))}
    ELSE UNION {IF p.kind # "sgl" THEN RowExcess(p, v[r], x[r])
                ELSE LET n == Len(x[r]) IN
                     IF \A c \in 1..n : x[r][c] = 0
                     THEN {NormU(First(p, <<v[r]>>, 256 * p.a)[1], 1..n) - 256 * p.b}
                     ELSE RowExcess(p, Minus(v[r], Direction(x[r], 1..n, p.b)), x[r]) : r \in 1..Len(x)}
IsSubgradient(p, v, x, tol) == \A e \in Excess(p, v, x) : e <= tol
=============================================================================
