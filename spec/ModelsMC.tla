------------------------------ MODULE ModelsMC ------------------------------
(* The geometric definitions are what the labels entail: compared with all convex regions of a small grid consistent  *)
(* with the labels, for every labeling of some of its points. Likewise for items. Also generates scripts.            *)
EXTENDS Models, TLC, Json
CONSTANTS GDim, GMax, \* points of the entailment check have GDim coordinates in 0..GMax
          MaxP, MaxN, Kinds, Coords, PoolSize, Depth
VARIABLES P, N,      \* labeled points
          g          \* generator state
vars == <<P, N, g>>

Grid == [1..GDim -> 0..GMax]
OnSegment(S, x) == \E a, b \in S : /\ Orient(<<a, b, x>>) = 0
                                   /\ \A k \in 1..2 : (a[k] <= x[k] /\ x[k] <= b[k]) \/ (b[k] <= x[k] /\ x[k] <= a[k])
Hull(S) == {x \in Grid : x \in S \/ InHull(S, x) \/ (GDim = 2 /\ OnSegment(S, x))}
ConvexSets == TLCEval({S \in SUBSET Grid : S # {} /\ Hull(S) = S})
Regions == TLCEval({S \in ConvexSets : P \subseteq S /\ S \cap N = {}})
Forced(R, x) == {IF x \in S THEN 2 ELSE 0 : S \in R}
NoConflict == ConvexConflict(P, N) = {FALSE}

Init == P = {} /\ N = {} /\ g = <<>>
Next == /\ \E x \in Grid : \/ Cardinality(P) < MaxP /\ P' = P \cup {x} /\ UNCHANGED N
                           \/ Cardinality(N) < MaxN /\ N' = N \cup {x} /\ UNCHANGED P
        /\ UNCHANGED g

ConflictIsContradiction ==
    /\ ConvexConflict(P, N) = {TRUE} => Regions = {}
    /\ (ConvexConflict(P, N) = {FALSE} /\ P \cap N = {} /\ P # {}) => Regions # {}
Sound == (NoConflict /\ P \cap N = {}) => LET W == Regions IN
            \A x \in Grid : LET y == TLCEval(ConvexPredict(P, N, x)) IN y \in {{0}, {2}} => Forced(W, x) = y
Complete == (NoConflict /\ Spans(P)) => LET W == Regions IN \A x \in Grid : LET F == TLCEval(Forced(W, x)) IN
                /\ Cardinality(F) = 1 => ConvexPredict(P, N, x) = F
                /\ Cardinality(F) = 2 => ConvexPredict(P, N, x) = {1}
NotBoth == NoConflict => \A x \in Grid : ~(InHull(P, x) /\ \E n \in N : InCone(P, n, x))
(* known labels stay *)
Monotone == [][NoConflict /\ ConvexConflict(P', N') = {FALSE} =>
                 \A x \in Grid : ConvexPredict(P, N, x) \in {{0}, {2}} =>
                      (IF InHull(P', x) THEN {2} ELSE IF \E n \in N' : InCone(P', n, x) THEN {0} ELSE {1}) = ConvexPredict(P, N, x)]_<<P, N>>

----------------------------------------------------------------------------
(* Items: Grid is a set of 0-1 sequences here *)
AllItems == 1..GDim
Worlds == {A \in SUBSET AllItems : (\A x \in P : Items(x) \subseteq A) /\ (\A x \in N : ~(Items(x) \subseteq A))}
MultiExact ==
    /\ MultiConflict(P, N) <=> Worlds = {}
    /\ ~MultiConflict(P, N) =>
          /\ PosItems(P) = {k \in AllItems : \A A \in Worlds : k \in A}
          /\ NegItems(P, N) = {k \in AllItems : \A A \in Worlds : k \notin A}

----------------------------------------------------------------------------
(* Scripts *)
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
NumModes == <<"positive", "negative", "persist", "persist">>
NumericSub == TLCEval([mode |-> NumModes[D(4)], d |-> IF D(3) = 1 THEN 1 ELSE 2])
DiscreteSub == TLCEval(IF D(3) = 1 THEN [mode |-> "categorical", d |-> 4] ELSE [mode |-> "multiset", d |-> TLCEval(R({4, 5, 6}))])
RandSubs(kind) ==
    CASE kind = "one"   -> <<[mode |-> NumModes[D(4)], d |-> 1]>>
      [] kind = "two"   -> <<[mode |-> NumModes[D(4)], d |-> 2]>>
      [] kind = "three" -> <<[mode |-> NumModes[D(4)], d |-> 3]>>
      [] kind \in {"items", "learner"} -> <<DiscreteSub>>
      [] OTHER          -> LET n == D(3) IN TLCEval([j \in 1..n |-> IF D(4) = 1 THEN DiscreteSub ELSE NumericSub])
CoordRange(s, wide) ==
    CASE s.mode = "categorical" -> 0..3
      [] s.mode = "multiset"    -> 0..1
      [] s.d = 1                -> 0..(IF wide THEN 20 ELSE 5)
      [] s.d = 2                -> 0..(IF wide THEN Coords ELSE 3)
      [] OTHER                  -> 0..(IF wide /\ Coords > 2 THEN 9 ELSE 2)
RandPoint(s, wide) == IF s.mode = "categorical" THEN <<TLCEval(R(CoordRange(s, wide)))>>
                      ELSE TLCEval([k \in 1..s.d |-> TLCEval(R(CoordRange(s, wide)))])
NotEmpty(s, x) == IF s.mode = "multiset" /\ Items(x) = {} THEN [x EXCEPT ![1] = 1] ELSE x
RandPool(subs, m, wide) == TLCEval([k \in 1..m |-> [j \in 1..Len(subs) |-> NotEmpty(subs[j], RandPoint(subs[j], wide))]])
(* labels of the pool in subspace j: a convex region, a set of values, or a set of allowed items, with errors in some *)
RandTruth(subs, pool, j, errors) ==
    LET s == subs[j]
        m == Len(pool)
        T == TLCEval({pool[k][j] : k \in ToSet(TLCEval(RandSeq(1..m, TLCEval(R((s.d + 1)..(s.d + 3))))))})
        V == TLCEval(ToSet(RandSeq(0..3, D(3))))
        A == TLCEval(1..s.d \ {D(s.d), D(s.d)})
        base == CASE s.mode = "categorical" -> [k \in 1..m |-> IF pool[k][j][1] \in V THEN 2 ELSE 0]
                  [] s.mode = "multiset"    -> [k \in 1..m |-> IF Items(pool[k][j]) \subseteq A THEN 2 ELSE 0]
                  [] OTHER -> [k \in 1..m |-> IF pool[k][j] \in T \/ InHull(T, pool[k][j]) THEN 2 ELSE 0]
        side == IF s.mode = "negative" \/ (s.mode = "persist" /\ D(2) = 1) THEN TLCEval([k \in 1..m |-> 2 - base[k]]) ELSE TLCEval(base)
    IN TLCEval([k \in 1..m |-> IF errors /\ D(8) = 1 THEN 2 - side[k] ELSE side[k]])
NewScript ==
    LET kind == TLCEval(R(Kinds))
        wide == D(4) > 1
        subs == TLCEval(RandSubs(kind))
        m == IF kind = "three" THEN PoolSize - 3 ELSE PoolSize
        pool == TLCEval(RandPool(subs, m, wide))
        errors == TLCEval(D(2) = 1)
        truth == TLCEval([j \in 1..Len(subs) |-> RandTruth(subs, pool, j, errors)])
    IN TLCEval([kind |-> kind, subs |-> subs, pool |-> pool, truth |-> truth, flow |-> TLCEval(Pick(<<-1, -1, -1, -1, 0, 2>>))])
(* a flow of single points: at first some of one label, then those of the other which are left, one by one             *)
Given(ops) == UNION {ToSet(ops[k].b) : k \in 1..Len(ops)}
OneByOne(sc, ops) ==
    LET first == {k \in 1..Len(sc.pool) : sc.truth[1][k] = sc.flow}
        rest == (1..Len(sc.pool)) \ (first \cup Given(ops)) IN
    [op |-> "update", b |-> TLCEval(IF ops = <<>> THEN RandSeq(first, D(2)) ELSE RandSeq(rest, 1))]
RandOp(sc, ops) ==
    LET d == D(14) IN
    CASE sc.flow >= 0 /\ sc.kind \in {"one", "two", "three"} -> OneByOne(sc, ops)
      [] d = 14 -> [op |-> "clear", b |-> <<>>]
      [] d \in {12, 13} -> IF sc.kind = "learner" THEN [op |-> "fit", b |-> TLCEval(RandSeq(1..Len(sc.pool), TLCEval(R(1..5))))]
                           ELSE [op |-> "copy", b |-> <<>>]
      [] OTHER -> [op |-> "update", b |-> TLCEval(RandSeq(1..Len(sc.pool), TLCEval(Pick(<<0, 1, 1, 1, 2, 2, 3, 5>>))))]
SimInit == P = {} /\ N = {} /\ g = <<>>
SimNext == /\ UNCHANGED <<P, N>>
           /\ g' = IF g = <<>> THEN <<NewScript>> ELSE Append(g, TLCEval(RandOp(g[1], Tail(g))))
SimExport == Len(g) = Depth + 1 => PrintT("SCRIPT " \o ToJson([s |-> g[1], ops |-> Tail(g)]))
=============================================================================
