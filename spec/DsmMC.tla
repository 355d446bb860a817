------------------------------- MODULE DsmMC -------------------------------
(* Exhaustive exploration of Dsm for few points and any behaviour of the polytope; generation of scripts.            *)
EXTENDS Dsm, TLC, Json
CONSTANTS N, MaxBatch, MaxCache, SimN, Depth
VARIABLES trained, \* the last batch was trained on
          asked,   \* points shown to the user last
          g
vars == <<dvars, trained, asked, g>>

Labels == {0, 2}
Batches == {b \in UNION {[D -> Labels] : D \in SUBSET Unlabeled} : DOMAIN b # {} /\ Cardinality(DOMAIN b) <= MaxBatch}
Knows == [1..N -> {0, 1, 2}]
Init == DsmInit(N) /\ trained = FALSE /\ asked = {} /\ g = <<>>
(* A polytope which finds no conflict only learns more; one which does may know anything, or nothing if it is invalid  *)
Grows(k2) == \A x \in 1..N : know[x] # 1 => k2[x] = know[x]
Next ==
    /\ UNCHANGED g
    /\ \/ \E b \in Batches : Collect(b) /\ ~trained /\ UNCHANGED trained /\ asked' = {}
       \/ \E b \in Batches : /\ trained' = TRUE /\ asked' = {}
                             /\ IF ~valid THEN Train(b, know, valid, FALSE)
                                ELSE \/ \E k2 \in {k \in Knows : Grows(k)} : Train(b, k2, TRUE, FALSE)
                                     \/ \E k2 \in Knows : Train(b, k2, TRUE, TRUE)
                                     \/ Train(b, [x \in 1..N |-> 1], FALSE, TRUE)
       \/ \E x \in Unlabeled : Len(cache) < MaxCache /\ PickKnown(<<x>>) /\ UNCHANGED <<trained, asked>>
       \/ \E x \in Unlabeled : Askable(x) /\ asked' = {x} /\ UNCHANGED <<dvars, trained>>
Apart == inferred \cap Labeled = {} /\ inferred \subseteq 1..N
InferredExact == valid => inferred = {x \in Unlabeled : know[x] # 1}
NothingInferredInvalid == ~valid => inferred = {} /\ cache = <<>>
CacheConfirmed == \A j \in 1..Len(cache) : valid /\ know[cache[j][1]] = cache[j][2]
AskedUnknown == asked # {} /\ valid => (Unknown # {} => \A x \in asked : know[x] = 1)
SomethingToAsk == Unlabeled # {} => (\E x \in Unlabeled : Askable(x))
UserLabelsKept == [][\A x \in Labeled : x \in DOMAIN label' /\ label'[x] = label[x]]_vars
NoNewsWhenInvalid == [][~valid => ~valid' /\ inferred' \subseteq inferred]_vars

----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
(* points on two attributes, labeled by a product of two intervals (which may be whole), with errors in some *)
Interval(m) == TLCEval(LET a == TLCEval(R(0..m)) IN LET b == TLCEval(R(0..m)) IN IF a <= b THEN <<a, b>> ELSE <<b, a>>)
NewScript ==
    LET kind == TLCEval(Pick(<<"stub", "stub", "real", "fact">>))
        n == TLCEval(R(3..SimN))
        m == TLCEval(R({6, 30}))
        iv == TLCEval(<<Interval(m), IF D(3) = 1 THEN <<0, m>> ELSE Interval(m)>>)
        errs == TLCEval(D(3) = 1)
        flip == TLCEval(D(3) = 1)
        xy == TLCEval([k \in 1..n |-> <<TLCEval(R(0..m)), TLCEval(R(0..m))>>])
        part == TLCEval([k \in 1..n |-> TLCEval([j \in 1..2 |-> IF (iv[j][1] <= xy[k][j] /\ xy[k][j] <= iv[j][2]) = ~(errs /\ D(8) = 1) THEN 2 ELSE 0])])
    IN TLCEval([kind |-> kind, n |-> n, xy |-> xy, part |-> part, flip |-> IF flip THEN 1 ELSE 0, batch |-> TLCEval(Pick(<<1, 1, 1, 2, 3>>)),
        sub |-> TLCEval(Pick(<<0, 0, 0, 1, 2, 4>>)), always |-> TLCEval(Pick(<<0, 0, 1>>)), quiet |-> TLCEval(Pick(<<0, 0, 1>>)),
        score |-> TLCEval([k \in 1..n |-> TLCEval(R(0..3))])])
(* how the stub polytope answers: what it learns (a candidate value per point), whether it reports a conflict *)
RandOp(sc) ==
    LET d == D(16) IN
    CASE d = 16 -> [op |-> "clear", b |-> <<>>, learn |-> <<>>, out |-> "ok"]
      [] d \in 11..15 -> [op |-> "askonly", b |-> <<>>, learn |-> <<>>, out |-> "ok"]
      [] d = 10 -> [op |-> "collect", b |-> TLCEval(RandSeq(1..sc.n, D(2))), learn |-> <<>>, out |-> "ok"]
      [] OTHER -> [op |-> IF D(3) = 1 THEN "label" ELSE "ask",
                   b |-> TLCEval(RandSeq(1..sc.n, D(2))),
                   learn |-> TLCEval([k \in 1..sc.n |-> IF D(5) <= 2 THEN TLCEval(R({0, 2})) ELSE 1]),
                   out |-> TLCEval(Pick(<<"ok", "ok", "ok", "ok", "conflict", "conflict", "invalid">>))]
Idle == UNCHANGED <<dvars, trained, asked>>
SimInit == Init
SimNext == /\ Idle
           /\ g' = IF g = <<>> THEN <<NewScript>> ELSE Append(g, TLCEval(RandOp(g[1])))
SimExport == Len(g) = Depth + 1 => PrintT("SCRIPT " \o ToJson([s |-> g[1], ops |-> Tail(g)]))
=============================================================================
