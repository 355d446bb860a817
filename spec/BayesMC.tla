------------------------------- MODULE BayesMC -------------------------------
EXTENDS Bayes, TLC, Json
CONSTANTS Big, Depth
VARIABLES Z, qs, c, g
vars == <<Z, qs, c, g>>
Det(m) == m[1][1] * m[2][2] - m[1][2] * m[2][1]
Init == /\ Z \in {m \in [1..2 -> [1..2 -> -Big..Big]] : Det(m) # 0} /\ qs \in [1..2 -> {Counts[j] : j \in 1..8}] /\ c = <<>> /\ g = <<>>
Next == c = <<>> /\ c' \in [1..2 -> -2..2] /\ UNCHANGED <<Z, qs, g>>
(* information of the examples of a point, in units of 1 / 180                                                                      *)
Info(q) == (180 * q[1] * q[2]) \div (q[1] + q[2])
(* the variance is x' H^-1 x for the Hessian H = sum of h z z'                                                                       *)
VarianceIsInverse == c # <<>> =>
    LET H == [r \in 1..2 |-> [s \in 1..2 |-> SumOf([k \in 1..2 |-> Info(qs[k]) * Z[k][r] * Z[k][s]])]]
        x == Combine(Z, c)
        quad == H[2][2] * x[1] * x[1] - (H[1][2] + H[2][1]) * x[1] * x[2] + H[1][1] * x[2] * x[2] IN
    18 * 180 * quad = Variance(c, qs) * Det(H)
(* the log odds are stationary: a (1 - p) = b p for p = a / (a + b) = 3^m / (1 + 3^m)                                               *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Stationary == \A q \in {qs[k] : k \in 1..2} : LET m == LogOdds(q) IN IF m >= 0 THEN q[1] = Pow(3, m) * q[2] ELSE q[2] = Pow(3, -m) * q[1]
(* opposite points, or opposite labels, have opposite arguments; certainty shrinks arguments                                         *)
Opposite == c # <<>> => LET a == Argument(c, qs) IN a + Argument([k \in 1..2 |-> -c[k]], qs) \in {0, -1, 1} /\ a + Argument(c, [k \in 1..2 |-> <<qs[k][2], qs[k][1]>>]) \in {-1, 0, 1}
Moderated == c # <<>> => AbsV(Argument(c, qs)) * 1000 <= AbsV(Margin(c, qs)) * 1098612
(* more examples, or a stronger prior of the same margin, make more certain                                                          *)
PriorCertain == \A b \in 0..3 : \A a \in (3 * b + 1)..(3 * b + 6) : PriorArgument(1, a, b) <= PriorArgument(1, a + 1, b) /\ PriorArgument(1, a, b) <= PriorArgument(1, a + 3, b + 1)
                                                              /\ PriorArgument(2, a, b) < 2 * PriorArgument(1, a, b)
ASSUME PriorCertain
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(s) == s[R(1..Len(s))]
Roll(k) == TLCEval(R(1..k))
Invertible(d) == IF d = 1 THEN {<<<<a>>>> : a \in {-2, -1, 1, 2}}
                 ELSE IF d = 2 THEN {m \in [1..2 -> [1..2 -> -2..2]] : Det(m) # 0}
                 ELSE {<<<<1, a, b>>, <<0, 1, e>>, <<f, 0, 1>>>> : a \in -1..1, b \in -1..1, e \in -1..1, f \in {0}} \cup {<<<<1, 0, 1>>, <<1, 1, 0>>, <<0, 1, 1>>>>, <<<<1, 2, 0>>, <<0, -1, 1>>, <<2, 0, 1>>>>}
(* with an intercept, points are 1 followed by their features                                                                        *)
Affine(d) == IF d = 1 THEN {<<<<1>>>>} ELSE IF d = 2 THEN {<<<<1, a>>, <<1, b>>>> : a \in -2..0, b \in 1..2} ELSE {<<<<1, 0, 0>>, <<1, a, b>>, <<1, e, f>>>> : a \in {1, 2}, b \in {-1, 0, 1}, e \in {0}, f \in {-1, 1, 2}}
Weights(d, icpt) == LET S == [1..d -> -2..2] IN IF icpt = 1 THEN {w \in S : SumOf(w) = 1} ELSE S
NewExact == LET icpt == TLCEval(R({0, 1})) d == TLCEval(R(IF icpt = 1 THEN {2, 3} ELSE {1, 2, 2, 3})) IN
    TLCEval([kind |-> "exact", d |-> d, icpt |-> icpt,
             fits |-> TLCEval([f \in 1..Roll(Depth) |-> TLCEval([Z |-> TLCEval(R(IF icpt = 1 THEN Affine(d) ELSE Invertible(d))), qs |-> TLCEval([k \in 1..d |-> TLCEval(Pick(Counts))]),
                                                             cs |-> TLCEval([j \in 1..4 |-> TLCEval(R(Weights(d, icpt)))]), clear |-> Roll(2)])])])
Unit == <<<<3, 4>>, <<-3, 4>>, <<4, -3>>, <<0, 5>>, <<5, 0>>, <<-4, -3>>, <<3, -4>>, <<4, 3>>>>
NewRelated == LET n == Roll(5) + 1 IN
    TLCEval([kind |-> "related", d |-> 2, icpt |-> 0, fits |-> TLCEval([f \in 1..Roll(2) |-> TLCEval([X |-> TLCEval([k \in 1..n |-> TLCEval(R(1..8))]), y |-> TLCEval([k \in 1..n |-> TLCEval(R({0, 1}))]), std |-> Roll(3),
                                                                                        at |-> TLCEval([k \in 1..4 |-> TLCEval(R(1..8))]), clear |-> Roll(2)])])])
NewPrior == LET b == Roll(3) - 1 a == 3 * b + Roll(6) IN
    TLCEval([kind |-> "prior", d |-> 1, icpt |-> 0, fits |-> TLCEval(<<[a |-> a, b |-> b, z |-> R({1, -1}), scale |-> R({1, 1, 2, 3}), neg |-> Roll(2), cs |-> TLCEval([k \in 1..3 |-> TLCEval(R(-3..3))]), clear |-> 2]>>)])
SimInit == Z = <<>> /\ qs = <<>> /\ c = <<>> /\ g = <<>>
SimNext == UNCHANGED <<Z, qs, c>> /\ g' = TLCEval(IF Roll(5) = 1 THEN <<NewPrior>> ELSE IF Roll(3) = 1 THEN <<NewRelated>> ELSE <<NewExact>>)
SimExport == g # <<>> => PrintT("SCRIPT " \o ToJson(g[1]))
=============================================================================
