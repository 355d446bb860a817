------------------------------- MODULE PoolMC -------------------------------
(* The definitions of Pool compared with enumerations of what they stand for; and random histories of a pool.         *)
EXTENDS Pool, TLC, Json
CONSTANTS N, MaxS, SimN, Depth, Focus   \* Focus: kinds of operations to be drawn more often
VARIABLES st, score, ps, g
vars == <<st, score, ps, g>>
Init == /\ g = <<>>
        /\ \/ st \in [1..N -> {"U", "L"}] /\ score \in [1..N -> 1..MaxS] /\ ps = <<>>
           \/ st = <<>> /\ score = <<>> /\ ps \in UNION {[1..k -> {0, 1} \X {0, 1}] : k \in 0..(MaxS + 2)}
Next == UNCHANGED vars

(* a point may be chosen iff it is a minimizer of some sample *)
SelectableRight == \A sub \in 0..(N + 1) :
    LET U == Unlabeled(st)
        Samples == {S \in SUBSET U : Cardinality(S) = SampleSize(U, sub)}
    IN Selectable(U, score, sub) = {p \in U : \E S \in Samples : p \in S /\ \A q \in S : score[p] <= score[q]}
AlwaysSelectable == \A sub \in 0..(N + 1) : Unlabeled(st) # {} => Selectable(Unlabeled(st), score, sub) # {}
Fewer == \A sub \in 1..N : Selectable(Unlabeled(st), score, sub + 1) \subseteq Selectable(Unlabeled(st), score, sub)
(* textbook facts about scores *)
Leq(f, h) == f[1] * h[2] <= h[1] * f[2]
ScoresRight == LET c == Counts(ps) IN
    /\ c.tp + c.fp + c.fn + c.tn = Len(ps)
    /\ \A name \in ScoreNames : LET f == Score(c, name) IN f[1] >= 0 /\ (name \in {"accuracy", "precision", "recall", "fscore"} => f[1] <= f[2])
    (* the f-score is the harmonic mean of precision and recall *)
    /\ LET p == Score(c, "precision") r == Score(c, "recall") f == Score(c, "fscore") IN
       c.tp > 0 => f[1] * (p[1] * r[2] + r[1] * p[2]) = f[2] * 2 * p[1] * r[1]
(* the three-set metric is a lower bound of the f-score of predictions which agree with what is known *)
LowerBound == \A known \in [1..Len(ps) -> BOOLEAN] :
    (\A k \in 1..Len(ps) : known[k] => ps[k][1] = ps[k][2]) =>
        LET t == ThreeSet([k \in 1..Len(ps) |-> IF known[k] THEN 2 * ps[k][1] ELSE 1])
            f == Score(Counts(ps), "fscore") IN t[2] > 0 => Leq(t, f)
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
Table(n, V) == TLCEval([k \in 1..n |-> TLCEval(R(V))])
NewScript == LET n == TLCEval(R(SimN)) y == TLCEval(R({{0}, {1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}})) truth == Table(n, y) IN
    TLCEval([n |-> n, truth |-> truth,
             partial |-> TLCEval([k \in 1..n |-> IF truth[k] = 1 THEN <<1, 1>> ELSE TLCEval(R({<<0, 1>>, <<1, 0>>, <<0, 0>>}))])])
(* the part of the pool a point is in depends on the moves before *)
At(ops, n) == FoldLeft(LAMBDA s, o : IF o.op = "clear" THEN [k \in 1..n |-> "U"]
                                     ELSE IF o.op = "label" THEN [k \in 1..n |-> IF k \in ToSet(o.ids) THEN "L" ELSE s[k]]
                                     ELSE IF o.op = "infer" THEN [k \in 1..n |-> IF k \in ToSet(o.ids) THEN "I" ELSE s[k]] ELSE s,
                       [k \in 1..n |-> "U"], ops)
Blank == [op |-> "", ids |-> <<>>, y |-> <<>>, sc |-> <<>>, k |-> 0, m |-> 0, names |-> <<>>, tabs |-> <<>>]
RandNames == TLCEval(RandSeq(ScoreNames, TLCEval(D(8))))
RandOp(sc, ops) ==
    LET n == sc.n
        s == At(ops, n)
        U == Unlabeled(s)
        d == TLCEval(IF D(2) = 1 /\ Len(ops) > 1 THEN R(Focus) ELSE R(1..6)) IN
    CASE d <= 4 -> LET b == TLCEval(RandSeq(U, TLCEval(D(3)))) IN [Blank EXCEPT !.op = "label", !.ids = b, !.y = [k \in 1..Len(b) |-> sc.truth[b[k]]]]
      [] d = 5 -> [Blank EXCEPT !.op = "infer", !.ids = TLCEval(RandSeq({p \in 1..n : s[p] # "I"}, TLCEval(D(3))))]
      [] d = 6 -> [Blank EXCEPT !.op = IF D(4) = 1 THEN "clear" ELSE "tsm", !.sc = Table(n, {0, 1, 1, 2, 2})]
      [] d \in 7..9 -> [Blank EXCEPT !.op = "query", !.sc = Table(n, TLCEval(R({{1}, {1, 2}, 1..3, 1..6}))), !.k = TLCEval(Pick(<<0, 0, 1, 2, 3, n, n + 2>>))]
      [] d \in 10..11 -> [Blank EXCEPT !.op = "random", !.k = TLCEval(Pick(<<0, 0, 2, 4>>)), !.m = TLCEval(R(1..(n + 1)))]
      [] d \in 12..13 -> LET all == TLCEval(D(2)) = 1
                             np == Cardinality({p \in 1..n : sc.truth[p] = 1})
                             nn == Cardinality({p \in 1..n : sc.truth[p] = 0 /\ (all => sc.partial[p] = <<0, 0>>)})
                         IN [Blank EXCEPT !.op = "stratified", !.k = TLCEval(D(np + (IF D(6) = 1 \/ np = 0 THEN 1 ELSE 0))),
                                          !.m = TLCEval(D(nn + (IF D(6) = 1 \/ nn = 0 THEN 1 ELSE 0))), !.names = IF all THEN <<"all">> ELSE <<>>]
      [] d = 14 -> [Blank EXCEPT !.op = "sampler", !.k = TLCEval(R(1..(n + 1)))]
      [] d = 15 -> [Blank EXCEPT !.op = "fixed", !.ids = TLCEval(RandSeq(1..n, TLCEval(D(3))))]
      [] d \in 16..18 -> [Blank EXCEPT !.op = "qbd", !.k = TLCEval(R(1..(n + 2))), !.m = D(3), !.tabs = TLCEval(<<Table(n, {0, 1}), Table(n, {0, 1}), Table(n, {0, 1})>>)]
      [] d \in 19..20 -> [Blank EXCEPT !.op = "scores", !.sc = Table(n, TLCEval(R({{0}, {1}, {0, 1}, {0, 1}, {0, 1}}))), !.ids = TLCEval(Table(TLCEval(D(12)), 1..n)), !.names = RandNames]
      [] d = 21 -> [Blank EXCEPT !.op = "training", !.sc = Table(n, TLCEval(R({{0}, {1}, {0, 1}, {0, 1}, {0, 1}}))), !.names = RandNames]
      [] d = 22 -> [Blank EXCEPT !.op = "unknown", !.names = TLCEval(RandNames \o <<TLCEval(R({"Accuracy", "f1", "", "true positive", "tsm"}))>>), !.k = TLCEval(R({0, 1}))]
      [] OTHER -> [Blank EXCEPT !.op = "entropy", !.sc = Table(n, {0, 1, 2})]
Sim0 == st = <<>> /\ score = <<>> /\ ps = <<>> /\ g = <<>>
SimNext == /\ UNCHANGED <<st, score, ps>>
           /\ g' = IF g = <<>> THEN <<NewScript>> ELSE Append(g, TLCEval(RandOp(g[1], Tail(g))))
SimExport == Len(g) = Depth + 1 => PrintT("SCRIPT " \o ToJson([s |-> g[1], ops |-> Tail(g)]))
=============================================================================
