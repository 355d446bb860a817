------------------------------- MODULE SwapMC -------------------------------
EXTENDS Swap, TLC, Json
CONSTANTS SwapIter, Every, Repeat, MaxIt, Depth
VARIABLES usr, at, computed, who, g
vars == <<svars, usr, at, computed, who, g>>
Users == <<<<{1, 2}, {2, 3}>>, <<{2, 3}, {1, 2}>>, <<{1, 2, 3}>>>>
Opt == [swap_iter |-> SwapIter, every |-> Every, repeat |-> Repeat, fact |-> 1, user |-> Users[usr]]
(* any of these may be computed: compatible ones, and others                                                             *)
Facts == {{{1, 2}, {3}}, {{1}, {2, 3}}, {{1}, {2}}, {{1, 3}}, {{1}, {2}, {3}}, {{2}, {3}}}
Init == SwapInit /\ usr = 1 /\ at = 1 /\ computed = <<>> /\ who = <<>> /\ g = <<>>
Fit == \E F \in Facts :
         /\ it < MaxIt
         /\ Train(Opt, F)
         /\ computed' = IF Computes(Opt, it + 1, full) THEN Append(computed, F) ELSE computed
         /\ who' = Append(who, IF PhaseOf(Opt, it + 1) = "active" THEN 1 ELSE IF full' THEN 3 ELSE 2)
         /\ at' = IF full' /\ ~full THEN usr ELSE at
         /\ UNCHANGED <<usr, g>>
ClearAll == Reset /\ computed' = <<>> /\ who' = <<>> /\ UNCHANGED <<usr, at, g>>
(* the user's subspaces may change any time; a switch depends on those at its time                                       *)
SetUser == usr' \in 1..Len(Users) /\ UNCHANGED <<svars, at, computed, who, g>>
Next == Fit \/ ClearAll \/ SetUser
OneWay == \A a, b \in 1..Len(who) : a < b => who[a] <= who[b]
OnTime == Cardinality({a \in 1..Len(who) : who[a] = 1}) = (IF it < SwapIter THEN it ELSE SwapIter)
OnlyStable == full => LET m == Len(computed) IN m > Repeat /\ \A j \in (m - Repeat)..m : computed[j] = computed[m]
OptAt == [Opt EXCEPT !.user = Users[at]]
OnlyCompatible == full => Compatible(OptAt, before[1]) /\ \A j \in 1..Len(OptAt.user) : Aligned(OptAt, before[1])[j] \subseteq OptAt.user[j]
(* a switch waits for nothing else                                                                                       *)
AtOnce == [][(Len(computed') > Len(computed) /\ ~full') => LET m == Len(computed') IN
                 (m > Repeat /\ \A j \in (m - Repeat)..m : computed'[j] = computed'[m]) => ~Compatible(Opt, computed'[m])]_vars
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
Table(n, V) == TLCEval([j \in 1..n |-> TLCEval(R(V))])
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
Unit(n, j, v) == [q \in 1..n |-> IF q = j THEN v ELSE 0]
Proper(n) == {s \in SUBSET (1..n) : s # {} /\ s # 1..n}
User(n) == LET d == D(6) IN
    TLCEval(IF d = 1 THEN <<R(Proper(n))>> ELSE
      IF n > 2 /\ d \in 3..4 THEN LET c == RandSeq(1..n, n) IN
        TLCEval([k \in 1..3 |-> {c[k]} \cup IF D(5) = 1 THEN {c[1]} ELSE IF n = 4 /\ D(3) = 1 THEN {c[4]} ELSE {}])
      ELSE LET s == TLCEval(R(Proper(n))) IN
      IF d = 2 THEN <<s, TLCEval(R(Proper(n)))>> ELSE IF D(2) = 1 THEN <<s, (1..n) \ s>> ELSE <<(1..n) \ s, s>>)
(* weights of a subspace: support, signs, bias                                                                          *)
Support(n, U, k) == IF D(5) = 1 THEN R(Proper(n)) ELSE LET u == U[1 + ((k - 1) % Len(U))] IN IF D(4) = 1 THEN R(SUBSET u \ {{}}) ELSE u
Row(n, s, sg, st) == LET few == Table(n, {-1, 0, 0, 1}) IN
    TLCEval([w |-> [j \in 1..n |-> IF j \in s THEN 5 * sg[j] ELSE few[j]], b |-> TLCEval(R(IF st > 0 THEN {1, -1} ELSE {1, -1, -3, 3, 11, 13, 81})), id |-> s])
(* st: 0 any rows, 1 the same subspaces at every step, 2 parts of the user's subspaces, all of one size, but changing   *)
RandRow(n, U, k, base, st) == LET s == TLCEval(IF st = 2 THEN LET u == U[1 + ((k - 1) % Len(U))] IN ToSet(RandSeq(u, Max({1, Cardinality(u) - 1})))
    ELSE IF st = 0 /\ D(10) = 1 THEN Support(n, U, k) ELSE base) IN
    IF st = 0 /\ D(12) = 1 /\ k > 1 THEN TLCEval([w |-> [j \in 1..n |-> 0], b |-> 1, id |-> {}]) ELSE Row(n, s, Table(n, {-1, 1}), st)
Safe(r) == [r EXCEPT !.b = 1]
(* every point of the data which is a unit vector shows that such a subspace matters                                    *)
Lists(U, n) == TLCEval([j \in 1..Len(U) |-> RandSeq(U[j], n)])
(* other subspaces, as many *)
Other(U, n) == TLCEval([j \in 1..Len(U) |-> IF D(2) = 1 THEN U[j] ELSE TLCEval(R(Proper(n)))])
(* subspaces which are parts of several maximal ones                                                                     *)
Shared(n) == LET c == RandSeq(1..n, n) A == {c[1], c[2]} B == {c[2], c[3]} S == {c[2]}
                 all == TLCEval(Pick(<<<<A, B, S>>, <<A, S, B>>, <<S, B, A>>, <<B, A, S, S>>, <<A, S, B, {c[1]}>>, <<A, B, {c[1], c[3]}, S>>, <<A, B, A>>, <<S, A, A>>, <<A, {c[3]}>>>>)) IN
    TLCEval([k \in 1..Len(all) |-> TLCEval(LET r == Row(n, all[k], Table(n, {-1, 1}), 0) IN IF k = 1 \/ r.b > 11 THEN Safe(r) ELSE r)])
NewScript ==
    LET n == TLCEval(Pick(<<2, 3, 3, 4>>)) U == User(n) K == TLCEval(Pick(<<Len(U), Len(U), Len(U), Len(U) + 1, 1>>)) steps == Depth + D(6)
        any == D(6) st == TLCEval(R({0, 1, 2}))
        base == TLCEval([k \in 1..K |-> TLCEval(IF any = 1 THEN R(Proper(n)) ELSE IF any = 2 THEN LET u == SetToSeq(U[1]) IN {u[1 + ((k - 1) % Len(u))]} ELSE Support(n, U, k))])
        pts == TLCEval(RandSeq({x \in [1..n -> -2..2] : SumOf([j \in 1..n |-> AbsV(x[j])]) # 1}, 2 + D(5)))
        X == TLCEval([q \in 1..(2 * n) |-> Unit(n, (q + 1) \div 2, IF q % 2 = 0 THEN 1 ELSE -1)] \o pts) IN
    TLCEval([n |-> n, direct |-> TLCEval(IF n > 2 THEN Shared(n) ELSE <<>>), users |-> TLCEval(<<Lists(U, n), Lists(Other(U, n), n), Lists(Reverse(U), n)>>), clear |-> D(4) - 1,
             fmax |-> D(3), fstep |-> TLCEval(Pick(<<1, 3, 10>>)), fl1 |-> D(5), fl2 |-> D(5), k |-> K, X |-> X, y |-> Table(Len(X), {0, 1}),
             part |-> TLCEval([q \in 1..Len(X) |-> Table(Len(U), {0, 1})]), alpred |-> Table(Len(X), {0, 1}), order |-> TLCEval(RandSeq(1..Len(X), Len(X))),
             swap_iter |-> TLCEval(IF st > 0 THEN 1 ELSE D(3)), every |-> TLCEval(IF st > 0 THEN D(2) ELSE D(3)), repeat |-> TLCEval(Pick(<<1, 1, 2>>)), onpred |-> D(2) - 1, sample |-> TLCEval(IF D(2) = 1 THEN 0 ELSE D(Len(X))),
             retries |-> D(3), prune |-> TLCEval(Pick(<<0, 1, 1>>)), fact |-> TLCEval(Pick(<<0, 1, 1, 1, 1>>)), adapter |-> D(2) - 1, shared |-> TLCEval(R({0, 1, 2})), late |-> D(2) - 1,
             rows |-> TLCEval([f \in 1..steps |-> TLCEval([k \in 1..K |-> TLCEval(LET r == TLCEval(RandRow(n, U, k, base[k], st)) IN IF k = 1 THEN Safe(r) ELSE r)])]),
             ops |-> TLCEval([f \in 1..steps |-> TLCEval([op |-> IF D(14) = 1 THEN "clear" ELSE "fit", user |-> TLCEval(IF D(5) = 1 THEN D(3) ELSE 0), more |-> TLCEval(IF f = 1 THEN 1 + D(2) ELSE Pick(<<0, 0, 0, 1, 2>>))])])])
SimInit == SwapInit /\ usr = 1 /\ at = 1 /\ computed = <<>> /\ who = <<>> /\ g = <<>>
SimNext == UNCHANGED <<svars, usr, at, computed, who>> /\ g' = <<NewScript>>
SimExport == g # <<>> => PrintT("SCRIPT " \o ToJson(g[1]))
=============================================================================
