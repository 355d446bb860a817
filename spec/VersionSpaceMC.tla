--------------------------- MODULE VersionSpaceMC ---------------------------
EXTENDS VersionSpace, TLC, Json
CONSTANTS Dim, MaxC, Rows, Depth
VARIABLES A, g
vars == <<A, g>>
Vec == [1..Dim -> (-MaxC)..MaxC]
Zero == [j \in 1..Dim |-> 0]
Init == A = <<>> /\ g = <<>>
Next == UNCHANGED g /\ Len(A) < Rows /\ \E a \in Vec \ {Zero} : A' = Append(A, a)
(* reasons are sound: no hypothesis of the cone disagrees *)
ForcedSound == \A r \in Vec \ {Zero} : Combines(A, r) => \A w \in Vec : InCone(A, w) => Dot(r, w) < 0
(* the body is convex, and the cone is one *)
Convex == \A x, y \in Vec : InBody(A, x, MaxC) /\ InBody(A, y, MaxC) => InBody(A, Plus(x, y), 2 * MaxC)
Cone == \A x \in Vec : InCone(A, x) <=> InCone(A, Times(3, x))
Shrinks == [][\A x \in Vec : InCone(A', x) => InCone(A, x)]_vars
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
RandVec(d, c) == TLCEval([j \in 1..d |-> TLCEval(R((-c)..c))])
(* linear labels given by a hidden hypothesis; the labels of kernel machines are any *)
NewScript ==
    LET kind == TLCEval(Pick(<<"linear", "linear", "kernel", "kernel", "body", "body">>))
        d == TLCEval(IF kind = "body" THEN IF D(3) = 1 THEN 3 ELSE 2 ELSE R(1..3))
        icpt == TLCEval(IF kind = "linear" THEN IF d = 1 THEN 1 ELSE R({0, 1}) ELSE IF kind = "kernel" THEN R({0, 1}) ELSE 0)
        w == TLCEval(LET v == RandVec(d + icpt, 3) IN IF \A j \in 1..(d + icpt) : v[j] = 0 THEN Row(Times(0, Tail(v)), TRUE) ELSE v)
        raw == TLCEval([k \in 1..16 |-> TLCEval(RandVec(d, TLCEval(R({2, 4}))))])
        good == TLCEval(SelectSeq(raw, LAMBDA x : (IF icpt = 1 THEN Labels(w, x, TRUE) ELSE Labels(w, x, FALSE)) # 0))
        pool == TLCEval(IF kind = "kernel" THEN SetToSeq(ToSet(raw)) ELSE good)
    IN TLCEval([kind |-> kind, d |-> d, icpt |-> icpt, pool |-> pool, opts |-> TLCEval([k \in 1..8 |-> TLCEval(R(0..3))]),
                y |-> TLCEval([k \in 1..Len(pool) |-> IF kind = "kernel" THEN TLCEval(R({0, 1})) ELSE IF Labels(w, pool[k], icpt = 1) = 1 THEN 1 ELSE 0])])
(* a labeling grows by one or more points, or is started again, perhaps (s = 2) with the opposite labels *)
Seen(ops) == FoldLeft(LAMBDA s, o : IF o.op \in {"clear", "shrink"} THEN o.b ELSE IF o.op = "grow" THEN s \o o.b ELSE s, <<>>, ops)
Blank == [op |-> "", b |-> <<>>, x |-> <<>>, v |-> <<>>, s |-> 1]
RandOp(sc, ops) ==
    LET n == Len(sc.pool)
        seen == Seen(ops)
        free == (1..n) \ ToSet(seen)
        d == D(20) IN
    IF sc.kind = "body" THEN
        CASE d <= 4 /\ Cardinality(free) > 0 -> [Blank EXCEPT !.op = "grow", !.b = TLCEval(RandSeq(free, D(2)))]
          [] d = 5 -> [Blank EXCEPT !.op = "clear", !.s = D(2)]
          [] d \in 6..8 -> [Blank EXCEPT !.op = "inside", !.x = RandVec(sc.d, 19), !.s = 16]
          [] d \in 9..12 -> [Blank EXCEPT !.op = "oracle", !.x = RandVec(sc.d, TLCEval(R({4, 13, 19}))), !.s = 16]
          [] d \in 13..14 -> [Blank EXCEPT !.op = "line", !.x = RandVec(sc.d, 11), !.v = TLCEval(LET v == RandVec(sc.d, 3) IN IF \A j \in 1..sc.d : v[j] = 0 THEN [v EXCEPT ![1] = 1] ELSE v), !.s = 16]
          [] d = 15 -> [Blank EXCEPT !.op = "interior"]
          [] d = 17 \/ (d \in 16..18 /\ sc.d # 2) -> [Blank EXCEPT !.op = "round", !.s = D(6)]
          [] d \in 16..18 -> [Blank EXCEPT !.op = "lift", !.s = D(6)]
          [] OTHER -> [Blank EXCEPT !.op = "walk", !.s = D(4)]
    ELSE
        CASE d \in 1..2 /\ D(3) > 1 -> [Blank EXCEPT !.op = "clear", !.s = D(2)]
          [] d = 2 /\ (free = {} \/ D(2) = 1) -> [Blank EXCEPT !.op = "shrink", !.b = TLCEval(RandSeq(ToSet(seen), Len(seen) - 1))]
          (* as many points as before, some of them others                                                              *)
          [] d \in 2..3 /\ seen # <<>> -> [Blank EXCEPT !.op = "shrink", !.b = TLCEval(RandSeq(1..n, Len(seen)))]
          [] OTHER -> [Blank EXCEPT !.op = "grow", !.b = TLCEval(RandSeq(free, TLCEval(Pick(<<1, 1, 1, 1, 2, 3>>))))]
SimInit == A = <<>> /\ g = <<>>
SimNext == /\ UNCHANGED A
           /\ g' = IF g = <<>> THEN <<NewScript>> ELSE Append(g, TLCEval(RandOp(g[1], Tail(g))))
SimExport == Len(g) = Depth + 1 => PrintT("SCRIPT " \o ToJson([s |-> g[1], ops |-> Tail(g)]))
=============================================================================
