----------------------------- MODULE PenaltyMC -----------------------------
EXTENDS Penalty, TLC, Json
CONSTANTS Rows, Cols, Bound, Depth
VARIABLES p, x, eta, g
vars == <<p, x, eta, g>>
Grid == [1..Rows -> [1..Cols -> -Bound..Bound]]
Penalties ==
    [kind : {"l1", "l2", "l2sqrt", "sgl"}, a : {1, 3}, b : {2}, d : {1}, groups : {<<>>} \cup (IF Cols = 1 THEN {} ELSE {<<<<1>>, <<2>>>>, <<<<2, 1>>>>} \cup (IF Cols < 3 THEN {} ELSE {<<<<1, 3>>, <<2>>>>, <<<<2, 3>>>>}))]
Convex == {r \in Penalties : r.kind \in {"l1", "l2"} => r.groups = <<>>}
Init == /\ p \in Convex \cup {[kind |-> k, a |-> 2, b |-> 0, d |-> d, groups |-> <<>>] : k \in {"huber"}, d \in {1, 2}}
        /\ x = <<>> /\ eta = 0 /\ g = <<>>
Next == x = <<>> /\ x' \in Grid /\ eta' \in {1, 4} /\ UNCHANGED <<p, g>>
Given == x # <<>>
Dist2(u, v) == Total(Map2(u, v, LAMBDA s, t : (s - t) * (s - t)))
(* penalty of any matrix in units, by rounding it to quarters when it is one; the proximal point need not be                      *)
LossU(u) ==
    LET n == Len(u[1]) G == GroupsOf(p, n) S == SetToSeq(G)
        one == Total(Map(u, AbsV)) two == SumOf([r \in 1..Len(u) |-> NormU(u[r], 1..n)]) grp == SumOf([r \in 1..Len(u) |-> SumOf([k \in 1..Len(S) |-> NormU(u[r], S[k])])]) IN
    CASE p.kind = "l1" -> Quarter(p.a, one)
      [] p.kind = "l2" -> Quarter(p.a, Total(Map(u, LAMBDA z : z * z)) \div U)
      [] p.kind = "l2sqrt" -> Quarter(p.a, grp)
      [] p.kind = "sgl" -> Quarter(p.a, IF p.groups = <<>> THEN one ELSE grp) + Quarter(p.b, two)
      [] OTHER -> Loss(p, Map(u, LAMBDA z : z \div 256))
Objective(y) == LossU(y) + (2 * (Dist2(Units(x), y) \div eta)) \div U
(* the proximal point is the best of all points, and moves by eta times a subgradient there                                        *)
ProxIsBest == Given /\ HasProx(p) => LET y == Prox(p, Units(x), eta) IN \A z \in Grid : Objective(y) <= Objective(Units(z)) + 16
ProxIsOptimal == Given /\ HasProx(p) => LET y == Prox(p, Units(x), eta) IN
    LET v == Map2(Units(x), y, LAMBDA s, t : ((s - t) * 4) \div eta) IN
    (\A r \in 1..Rows : NormU(y[r], 1..Cols) \notin 1..63 /\ \A h \in GroupsOf(p, Cols) : NormU(y[r], h) \notin 1..63) => IsSubgradient(p, v, y, 40)
Inner(u, v) == Total(Map2(u, v, LAMBDA s, t : s * t)) \div U
(* exactly the subgradients bound the penalty from below (v in quarters, too)                                                      *)
SubgradientsBound == Given /\ eta = 1 => \A v \in [1..Rows -> [1..Cols -> -2..2]] :
    LET vu == Units(v) IN
    IsSubgradient(p, vu, Units(x), 2) => \A z \in Grid : LossU(Units(z)) + 12 >= LossU(Units(x)) + Inner(vu, Map2(Units(z), Units(x), LAMBDA s, t : s - t))
OthersDoNot == Given /\ eta = 1 /\ p.kind \in {"l1", "l2sqrt", "sgl"} => \A v \in [1..Rows -> [1..Cols -> -3..3]] :
    LET vu == Units(v) IN
    ~IsSubgradient(p, vu, Units(x), 250) =>
        \E z \in Grid \cup {Map2(x, v, LAMBDA s, t : s + t)} : \E k \in {1, 2, 4, 8} :
            LET y == Map2(Units(x), Units(z), LAMBDA s, t : s + ((t - s) \div k)) IN LossU(y) < LossU(Units(x)) + Inner(vu, Map2(y, Units(x), LAMBDA s, t : s - t)) - 3
LossAgrees == Given => LossU(Units(x)) - Loss(p, x) \in -2..2
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(s) == s[R(1..Len(s))]
D(k) == TLCEval(R(1..k))
Matrix(n, m, V) == TLCEval([r \in 1..n |-> TLCEval([c \in 1..m |-> TLCEval(R(V))])])
Zeros(n, m, mat) == LET z == TLCEval(D(4)) k == D(n) c == D(m) IN
    IF z = 1 THEN [mat EXCEPT ![k] = [j \in 1..m |-> 0]] ELSE IF z = 2 THEN [r \in 1..n |-> [mat[r] EXCEPT ![c] = 0]] ELSE mat
RandGroups(m) == LET style == D(5) col == TLCEval([c \in 1..m |-> D(3)]) IN
    IF style <= 2 THEN <<>> ELSE
    LET S == {h \in {{c \in 1..m : col[c] = k} : k \in 1..(IF style = 3 THEN 2 ELSE 3)} : h # {}} IN IF S = {} THEN <<>> ELSE [k \in 1..Cardinality(S) |-> SetToSeq(SetToSeq(S)[k])]
NewPenalty(m) ==
    LET kind == TLCEval(Pick(<<"l1", "l2", "l2sqrt", "l2sqrt", "sgl", "sgl", "sgl", "inter", "huber">>)) IN
    TLCEval([kind |-> kind, a |-> D(6), b |-> D(6), d |-> D(6), groups |-> TLCEval(IF kind \in {"l2sqrt", "sgl"} THEN RandGroups(m) ELSE <<>>)])
NewOp(n, m) ==
    TLCEval([op |-> Pick(<<"loss", "grad", "prox", "prox", "sub", "own", "optimal", "optimal", "near">>), q |-> TLCEval(Zeros(n, m, Matrix(n, m, IF D(2) = 1 THEN -3..3 ELSE -12..12))),
             eta |-> D(6), v |-> Matrix(n, m, -8..8), r |-> D(n), c |-> D(m)])
SimInit == p = <<>> /\ x = <<>> /\ eta = 0 /\ g = <<>>
SimNext == /\ UNCHANGED <<p, x, eta>>
           /\ g' = TLCEval(LET n == D(3) m == TLCEval(Pick(<<1, 2, 3, 3, 4>>)) IN <<[p |-> NewPenalty(m), cols |-> m, attach |-> D(3), ops |-> TLCEval([k \in 1..Depth |-> NewOp(n, m)])]>>)
SimExport == g # <<>> => PrintT("SCRIPT " \o ToJson(g[1]))
=============================================================================
