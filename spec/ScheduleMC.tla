----------------------------- MODULE ScheduleMC -----------------------------
EXTENDS Schedule, TLC, Json
CONSTANTS K, P, MaxIt, Depth
VARIABLES it, cur, share, limit, g
vars == <<it, cur, share, limit, g>>
Xs == <<<<0>>, <<2>>, <<-1>>>>
Results == {<<w, b>> : w \in -2..2, b \in -1..6}
Opt(e, a) == [adapt |-> a, exp |-> e, min |-> 2, max |-> 9, inc |-> 3, every |-> 2, cars |-> 0, decay |-> 0, sample |-> 1]
Init == it = 0 /\ cur = <<>> /\ share = <<>> /\ limit = <<>> /\ g = <<>>
Fit == /\ it < MaxIt
       /\ \E W \in [1..Rows(cur, K) -> Results] : After(W, Xs, 1) # <<>> /\ cur' = After(W, Xs, 1)
       /\ it' = it + 1 /\ share' = Append(share, Share(it + 1, P)) /\ limit' = Append(limit, <<Limit(Opt(0, 1), it + 1), Limit(Opt(1, 1), it + 1), Limit(Opt(0, 0), it + 1)>>) /\ UNCHANGED g
Clr == it > 0 /\ it' = 0 /\ cur' = <<>> /\ share' = <<>> /\ limit' = <<>> /\ UNCHANGED g
Next == Fit \/ Clr
(* the penalty never falls, is full from the p-th training on, and starts with an even part                                          *)
Ramp == \A a \in 1..Len(share) : share[a] \in 1..2520 /\ (a >= P => share[a] = 2520) /\ (a < P => share[a] * P <= 2520 * a /\ share[a] < 2520) /\ (a > 1 => share[a - 1] <= share[a])
(* subspaces are only ever lost                                                                                                     *)
Shrinks == Len(cur) <= K
Forgets == it = 0 <=> cur = <<>>
Pruned == \A k \in 1..Len(cur) : cur[k][1] # 0 /\ \E e \in 1..Len(Xs) : Margin(cur[k], Xs[e]) <= 4
Limits == \A a \in 1..Len(limit) : \A v \in 1..3 : limit[a][v] \in 2..9 /\ (a > 1 => limit[a - 1][v] <= limit[a][v])
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(s) == s[R(1..Len(s))]
Roll(k) == TLCEval(R(1..k))
Table(n, V) == TLCEval([j \in 1..n |-> TLCEval(R(V))])
NewSampler ==
    LET d == Roll(2) + 1 k == Roll(3) IN
    TLCEval([kind |-> "sampler", d |-> d, k |-> k, pen |-> TLCEval(Pick(<<0, 1, 2, 5>>)), iters |-> TLCEval(Pick(<<0, 1, 2, 3, 4, 5, 7>>)), log |-> Roll(2) - 1, prune |-> Roll(2) - 1,
             groups |-> TLCEval(Pick(<<<<>>, <<>>, <<<<1, 2>>>>, <<<<2>>, <<1>>>>, IF d = 3 THEN <<<<3, 1>>, <<2>>>> ELSE <<<<2, 1>>>>>>)),
             X |-> TLCEval([e \in 1..(4 + Roll(3)) |-> TLCEval(IF e = 1 THEN [j \in 1..d |-> 0] ELSE Table(d, -2..2))]),
             ops |-> TLCEval([f \in 1..(Depth + Roll(3)) |-> TLCEval([op |-> IF Roll(7) = 1 THEN "clear" ELSE "fit", y |-> Roll(2) - 1,
                                                                  W |-> TLCEval([r \in 1..k |-> TLCEval(IF Roll(6) = 1 THEN [j \in 1..(d + 1) |-> IF j = d + 1 THEN R({0, 6}) ELSE 0]
                                                                                               ELSE [j \in 1..(d + 1) |-> IF j = d + 1 THEN R({-1, 0, 1, 8, -1, 0, 1}) ELSE R({-1, 0, 1})])])])])])
NewSimple ==
    LET mn == TLCEval(R({1, 2, 3, 4, 5})) IN
    TLCEval([kind |-> "simple", d |-> 2, k |-> Roll(3), swap_iter |-> Roll(3), cars |-> TLCEval(Pick(<<0, 0, 0, 0, 0, 0, 1>>)), decay |-> Roll(2) - 1, sample |-> TLCEval(Pick(<<20, 250, 251, 300, 200, 400>>)),
             fista |-> Roll(2) - 1, adapt |-> TLCEval(Pick(<<0, 1, 1, 1>>)), exp |-> Roll(2) - 1, min |-> mn, max |-> mn + Roll(20) - 1, inc |-> Roll(4), every |-> Roll(3), retries |-> Roll(2),
             prune |-> Roll(2) - 1, threshold |-> TLCEval(Pick(<<99, 90, 70, 50>>)), fact |-> Roll(2) - 1, fmax |-> Roll(5), fstep |-> Roll(9), fpen |-> Roll(9),
             l1 |-> Roll(4), l2 |-> Roll(4), groups |-> TLCEval(Pick(<<<<>>, <<<<1, 2>>>>>>)), step |-> TLCEval(Pick(<<0, 1, 2, 3>>)),
             ops |-> TLCEval([f \in 1..(Depth + 3 + Roll(3)) |-> TLCEval([op |-> IF Roll(12) = 1 THEN "clear" ELSE "fit"])])])
SimInit == Init
SimNext == UNCHANGED <<it, cur, share, limit>> /\ g' = TLCEval(IF Roll(3) = 1 THEN <<NewSimple>> ELSE <<NewSampler>>)
SimExport == g # <<>> => PrintT("SCRIPT " \o ToJson(g[1]))
=============================================================================
