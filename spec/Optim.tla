------------------------------- MODULE Optim -------------------------------
(* Iterative minimization: the protocol of the optimizers, their steps, and mini-batches.                              *)
(* Numbers are in units of 1 / U; gradients are integers. h is the hidden state of an optimizer, o its options.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
U == 4096
AbsV(x) == IF x < 0 THEN -x ELSE x
MinV(a, b) == IF a < b THEN a ELSE b
SumOf(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Sq(s) == SumOf([j \in 1..Len(s) |-> s[j] * s[j]])
RECURSIVE Pow(_, _), Root(_, _, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)
----------------------------------------------------------------------------
(* mini-batches: used are the examples of this epoch so far                                                             *)
BatchOk(used, B, n, b) == B # {} /\ B \subseteq 1..n /\ B \cap used = {} /\ Cardinality(B) = MinV(b, n - Cardinality(used))
UsedAfter(used, B, n) == LET u == used \cup B IN IF Cardinality(u) = n THEN {} ELSE u
----------------------------------------------------------------------------
(* the step size of iteration k: <<numerator, denominator>>                                                             *)
(* p = 0 stands for the default power: one half for Adam, and one for all others                                          *)
StepSize(o, k) == CASE o.sched = "power" /\ o.p = 0 /\ o.kind = "adam" -> <<ISqrt(1048576 \div (1 + (k \div o.ae))), o.den * 1024>>
                    [] o.sched = "power" /\ (o.p # 0 \/ o.kind # "adam") -> <<1, o.den * Pow(1 + (k \div o.ae), IF o.p = 0 THEN 1 ELSE o.p)>>
                    [] o.sched = "exp" -> <<Pow(o.dn, k \div o.ae), o.den * Pow(4, k \div o.ae)>>
                    [] OTHER -> <<1, o.den>>
Scaled(z, s) == (z * s[1]) \div s[2]
(* hidden state: averages v of gradients, w of their squares (units of 2^-20), and FISTA's theta (units of 2^-10)         *)
Fresh(L) == [v |-> [j \in 1..L |-> 0], w |-> [j \in 1..L |-> 0], th |-> 1024, y |-> <<>>]
Absorb(o, h, g) == [h EXCEPT !.v = [j \in 1..Len(g) |-> (o.mom * h.v[j] + (4 - o.mom) * U * g[j]) \div 4],
                             !.w = [j \in 1..Len(g) |-> (o.b2 * (h.w[j] \div 4)) + ((4 - o.b2) * g[j] * g[j] * 262144)]]
(* Adam: the averages without their bias towards zero; k is the number of gradients                                      *)
Unbiased(z, q, k) == LET d == 1024 - ((1024 * Pow(q, k)) \div Pow(4, k)) IN IF AbsV(z) < 1048576 THEN (z * 1024) \div d ELSE (z \div d) * 1024
AdamDir(o, h, k) == [j \in 1..Len(h.v) |->
    LET m == Unbiased(h.v[j], o.mom, k) d == ISqrt(Unbiased(h.w[j], o.b2, k)) IN IF d + 1024 * o.eps = 0 THEN 0 ELSE (m * 1024) \div (d + 1024 * o.eps)]
(* the square is too small to divide by it with this precision                                                          *)
Tiny(h, j) == h.w[j] \in 1..16383
Soft(z, t) == IF z > t THEN z - t ELSE IF z < -t THEN z + t ELSE 0
(* a proximal step for the penalty lam / 2 |x|, from which biases are exempt                                              *)
Prox(o, x, g, s) == [j \in 1..Len(x) |-> LET z == x[j] - Scaled(g[j] * U, s) IN IF o.free[j] = 1 THEN z ELSE Soft(z, Scaled((o.lam * U) \div 2, s))]
NextTheta(th) == (1024 + ISqrt(1024 * 1024 + 4 * th * th)) \div 2
(* FISTA's point of the next gradient, after a move from x to x2                                                         *)
Ahead(h, x, x2) == LET t2 == NextTheta(h.th) IN [j \in 1..Len(x) |-> x2[j] + (((h.th - 1024) * (x2[j] - x[j])) \div t2)]
Close(a, b, eps) == \A j \in 1..Len(a) : AbsV(a[j] - b[j]) <= eps[j]
----------------------------------------------------------------------------
(* tests of convergence: "yes", "no" or "open" (too close to tell)                                                       *)
RelTest(o, prev, x) ==
    IF o.rq = 0 \/ prev = <<>> THEN "no" ELSE
    LET c == [j \in 1..Len(x) |-> x[j] \div 64] p == [j \in 1..Len(x) |-> (x[j] - prev[j]) \div 64]
        a == Sq(p) * o.rq * o.rq b == Sq(c) m == 8 * o.rq * (ISqrt(b) + o.rq * ISqrt(Sq(p)) + 4 * o.rq) IN
    IF a + m < b THEN "yes" ELSE IF a > b + m THEN "no" ELSE "open"
GradTest(o, sign, g) ==
    IF o.kind = "fista" THEN "no"
    ELSE IF o.kind = "prox" THEN
        LET bias == {j \in 1..Len(g) : o.free[j] = 1} w == (1..Len(g)) \ bias IN
        IF /\ 4 * SumOf([j \in 1..Len(g) |-> IF j \in bias THEN g[j] * g[j] ELSE 0]) <= o.gt * o.gt
           /\ \A j \in w : IF sign[j] = 0 THEN 2 * AbsV(g[j]) - o.lam <= o.gt ELSE AbsV(2 * g[j] + o.lam * sign[j]) <= o.gt
        THEN "yes" ELSE "no"
    ELSE IF 4 * Sq(g) < o.gt * o.gt THEN "yes" ELSE "no"
Test(o, prev, x, sign, g) == LET r == RelTest(o, prev, x) q == GradTest(o, sign, g) IN
    IF r = "yes" \/ q = "yes" THEN "yes" ELSE IF r = "open" THEN "open" ELSE "no"
=============================================================================
