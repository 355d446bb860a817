------------------------------ MODULE OptimMC ------------------------------
EXTENDS Optim, TLC, Json
CONSTANTS N, B, Rounds, Kinds
VARIABLES used, count, opt, g
vars == <<used, count, opt, g>>
(* any shuffles of N examples; and the protocol: an iterate per step, until converged or the limit                        *)
Init == used = {} /\ count = [e \in 1..N |-> 0] /\ opt = [it |-> 0, seen |-> <<0>>, conv |-> FALSE] /\ g = <<>>
Batch == \E S \in SUBSET (1..N) : /\ BatchOk(used, S, N, B)
                                  /\ used' = UsedAfter(used, S, N)
                                  /\ count' = [e \in 1..N |-> count[e] + IF e \in S THEN 1 ELSE 0]
                                  /\ UNCHANGED <<opt, g>>
Move == /\ ~opt.conv /\ opt.it < Rounds
        /\ \E c \in BOOLEAN : opt' = [it |-> opt.it + 1, seen |-> Append(opt.seen, opt.it + 1), conv |-> c]
        /\ UNCHANGED <<used, count, g>>
Next == Batch \/ Move
Bound == \A e \in 1..N : count[e] <= Rounds
Even == \A e, f \in 1..N : count[e] - count[f] \in -1..1
EvenAtTheEnd == used = {} => \A e, f \in 1..N : count[e] = count[f]
OneCallEach == opt.seen = [k \in 1..(opt.it + 1) |-> k - 1] /\ opt.it <= Rounds
StopsOnce == [][~opt.conv \/ opt' = opt]_vars
ASSUME \A n \in 0..200 : LET r == ISqrt(n) IN r * r <= n /\ (r + 1) * (r + 1) > n
(* the averages of equal gradients are this gradient, whatever the weights                                                *)
ASSUME \A q \in 0..3 : \A c \in -3..3 :
    LET o == [mom |-> q, b2 |-> q, eps |-> 0] IN
    LET hs == FoldLeft(LAMBDA h, k : Append(h, Absorb(o, h[Len(h)], <<c>>)), <<Fresh(1)>>, <<1, 2, 3, 4, 5>>) IN
    \A k \in 2..6 : /\ AbsV(Unbiased(hs[k].v[1], q, k - 1) - c * U) <= 40 /\ AbsV(Unbiased(hs[k].w[1], q, k - 1) - c * c * 1048576) <= 4000
                    /\ AbsV(AdamDir(o, hs[k], k - 1)[1] - IF c > 0 THEN U ELSE IF c < 0 THEN -U ELSE 0) <= 40
(* the proximal step is the best of all points                                                                             *)
ASSUME \A z \in -6..6 : \A lam \in 1..3 : \A y \in -6..6 :
    LET p == Soft(z, lam) IN 2 * lam * AbsV(p) + (p - z) * (p - z) <= 2 * lam * AbsV(y) + (y - z) * (y - z)
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
Table(n, V) == TLCEval([j \in 1..n |-> TLCEval(R(V))])
RandGrad(L) == IF D(7) = 1 THEN [j \in 1..L |-> 0] ELSE IF D(3) = 1 THEN Table(L, -1..1) ELSE Table(L, -4..4)
NewRun(L) == TLCEval([x0 |-> Table(L, -4..4), grads |-> TLCEval([k \in 1..13 |-> TLCEval(RandGrad(L))])])
NewOptim ==
    LET rows == D(2) cols == D(2) bias == TLCEval(R({0, 1})) kind == TLCEval(Pick(<<"gd", "gd", "adam", "adam", "prox", "prox", "fista", "fista", "noisy", "line">>)) IN
    LET L == rows * (cols + bias) IN
    TLCEval([o |-> TLCEval([kind |-> kind, rows |-> rows, bias |-> bias,
                            free |-> [j \in 1..L |-> IF bias = 1 /\ kind \in {"prox", "fista"} /\ j % (cols + 1) = 0 THEN 1 ELSE 0],
                            eps |-> IF kind = "adam" THEN TLCEval(Pick(<<0, 0, 1, 2>>)) ELSE 0,
                            mom |-> IF kind \in {"gd", "adam", "line"} THEN TLCEval(R(0..3)) ELSE 0, b2 |-> TLCEval(R({1, 2, 3})), den |-> TLCEval(R({1, 2, 4})),
                            sched |-> TLCEval(R({"fixed", "power", "exp"})), ae |-> D(3), p |-> D(3) - 1, dn |-> D(3),
                            gt |-> TLCEval(IF kind = "line" THEN R({1, 3, 5}) ELSE Pick(<<0, 1, 1, 3, 5>>)), rq |-> TLCEval(Pick(<<0, 0, 2, 4, 16>>)),
                            max |-> D(6), lam |-> D(4), a |-> Table(L, 1..3)]),
             runs |-> TLCEval([r \in 1..D(3) |-> NewRun(L)])])
(* BFGS of a quadratic function: its steps are SciPy's, but it starts where it should and stops when it should               *)
NewBfgs ==
    LET rows == D(2) cols == D(3) L == rows * cols IN
    TLCEval([o |-> TLCEval([kind |-> "bfgs", rows |-> rows, a |-> Table(L, 1..3), c |-> Table(L, -4..4), gt |-> TLCEval(Pick(<<1, 1, 4, 16>>)), max |-> TLCEval(Pick(<<0, 0, 1, 2, 3, 4>>)), rq |-> 0]),
             runs |-> TLCEval([r \in 1..D(2) |-> TLCEval([x0 |-> Table(L, -4..4)])])])
(* many passes over more examples: the order of one is not that of the next                                             *)
NewBatch ==
    IF D(8) = 1 THEN LET n == 11 + D(4) IN
    TLCEval([n |-> n, k |-> D(2), y |-> Table(n, {0, 1}), b |-> D(2), max |-> TLCEval(Pick(<<30, 45>>)), fits |-> D(2), bias |-> TLCEval(R({0, 1})),
             opt |-> TLCEval(R({"gd", "noisy", "adam", "prox", "fista"}))])
    ELSE
    LET n == D(9) IN
    TLCEval([n |-> n, k |-> D(2), y |-> Table(n, {0, 1}), b |-> TLCEval(R({0} \cup 1..(n + 2))), max |-> D(14), fits |-> D(2), bias |-> TLCEval(R({0, 1})),
             opt |-> TLCEval(R({"gd", "noisy", "adam", "prox", "fista"}))])
SimInit == used = {} /\ count = <<>> /\ opt = <<>> /\ g = <<>>
SimNext == UNCHANGED <<used, count, opt>> /\ g' = <<TLCEval(IF Kinds = "batch" THEN NewBatch ELSE IF D(8) = 1 THEN NewBfgs ELSE NewOptim)>>
SimExport == g # <<>> => PrintT("SCRIPT " \o ToJson(g[1]))
=============================================================================
