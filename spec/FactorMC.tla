------------------------------ MODULE FactorMC ------------------------------
EXTENDS Factor, TLC, Json
CONSTANTS N, MaxLoss, Depth, Kinds
VARIABLES cur, loss, g
vars == <<cur, loss, g>>
(* greedy search with any losses of the partitions                                                                      *)
ASSUME \A k \in 0..5 : Cardinality(Partitions(1..k)) = <<1, 1, 2, 5, 15, 52>>[k + 1]
ASSUME \A P \in Partitions(1..4) : UNION P = 1..4 /\ {} \notin P /\ \A a, b \in P : a = b \/ a \cap b = {}
ASSUME \A n \in 1..4 : \A k, d \in 0..5 : Possible(n, k, d) = (Admissible(n, k, d) # {})
ASSUME \A n \in 1..4 : \A d \in 1..n : \A P \in Admissible(n, 0, d) : Merges(P, d) \subseteq Admissible(n, 0, d) /\ \A Q \in Merges(P, d) : Cardinality(Q) = Cardinality(P) - 1
ASSUME \A R \in SUBSET (SUBSET (1..3)) : /\ \A a, b \in Maximal(R) : a # b => ~(a \subseteq b)
                                         /\ \A r \in R : \E m \in Maximal(R) : r \subseteq m
Init == g = <<>> /\ cur = Singles(N) /\ loss \in [Partitions(1..N) -> 0..MaxLoss]
Best(S) == {P \in S : \A Q \in S : loss[P] <= loss[Q]}
Next == /\ UNCHANGED <<loss, g>>
        /\ \E P \in Best(Merges(cur, N)) : loss[P] < loss[cur] /\ cur' = P
NeverWorse == loss[cur] <= loss[Singles(N)]
LocalOptimum == ~ENABLED Next => \A P \in Merges(cur, N) : loss[cur] <= loss[P]
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
Table(n, V) == TLCEval([j \in 1..n |-> TLCEval(R(V))])
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
(* a random partition: each attribute takes a block                                                                     *)
RandPart(n) == LET c == Table(n, TLCEval(1..D(n))) IN
    TLCEval(SelectSeq([b \in 1..n |-> SelectSeq(RandSeq(1..n, n), LAMBDA j : c[j] = b)], LAMBDA s : s # <<>>))
Subset(n) == LET c == Table(n, {0, 1}) IN SelectSeq([j \in 1..n |-> j], LAMBDA j : c[j] = 1)
NewScript ==
    LET kind == TLCEval(R(Kinds)) IN
    CASE kind = "search" -> TLCEval([kind |-> TLCEval(R({"brute", "greedy"})), n |-> TLCEval(Pick(<<1, 2, 3, 3, 4, 4, 5, 5, Depth>>)),
            maxk |-> TLCEval(Pick(<<0, 0, 0, 1, 2, 3, 4, 6>>)), maxd |-> TLCEval(Pick(<<0, 0, 1, 2, 2, 3, 3, 4, 7>>)), levels |-> TLCEval(R({2, 4, 10, 1000})), warm |-> TLCEval(R({0, 1}))])
      [] kind = "antichain" -> LET n == TLCEval(R(1..6)) IN TLCEval([kind |-> kind, n |-> n, rel |-> TLCEval([k \in 1..D(6) |-> TLCEval(Subset(n))])])
      [] kind = "clf" -> LET n == TLCEval(R(2..6)) IN TLCEval([kind |-> kind, n |-> n, part |-> RandPart(n), w |-> Table(2 * n, -3..3), X |-> TLCEval([i \in 1..5 |-> Table(n, -2..2)])])
      [] kind = "flm" -> LET n == TLCEval(R(1..4)) K == D(3) m == TLCEval(R(2..6)) r == TLCEval(Pick(<<1, 1, 2, 3>>)) IN
            TLCEval([kind |-> kind, n |-> n, k |-> K, bias |-> TLCEval(Pick(<<0, 1, 1, 1>>)),
                     X |-> TLCEval([i \in 1..m |-> Table(n, -2..2)]), y |-> Table(m, {0, 1}),
                     (* starting points: weights and bias for all subspaces                                              *)
                     starts |-> TLCEval([s \in 1..r |-> TLCEval([kk \in 1..K |-> IF D(8) = 1 THEN [j \in 1..(n + 1) |-> IF j > n THEN 1 ELSE 0] ELSE Table(n + 1, -2..2)])]),
                     fact |-> IF D(2) = 1 THEN <<>> ELSE TLCEval([kk \in 1..K |-> TLCEval(Subset(n))]),
                     groups |-> IF D(2) = 1 THEN <<>> ELSE RandPart(n)])
SimInit == cur = {} /\ loss = <<>> /\ g = <<>>
SimNext == UNCHANGED <<cur, loss>> /\ g' = <<NewScript>>
SimExport == g # <<>> => PrintT("SCRIPT " \o ToJson(g[1]))
=============================================================================
