---------------------------- MODULE SubspaceMC ----------------------------
EXTENDS Subspace, TLC, Json
CONSTANTS K, Depth, Kinds
VARIABLES p, g
vars == <<p, g>>
Init == g = <<>> /\ p \in UNION {[1..k -> 0..8] : k \in 1..K}
Next == UNCHANGED vars
Sure == \A k \in 1..Len(p) : p[k] \in {0, 8}
(* textbook facts about the combinations *)
Bounds == /\ Prod(p) <= Proba("min", p) /\ Proba("min", p) <= Proba("max", p) /\ Prod(p) \in 0..One
          /\ Loss("greedy", p) \in 0..One /\ (K <= 3 => Loss("squared", p) <= One)
          /\ Loss("product", p) \in 0..(One \div 2)
(* known subspaces do not change products; a point is least interesting iff all is known *)
Neutral == /\ Prod(p) = Prod(SelectSeq(p, LAMBDA a : a # 8))
           /\ Loss("greedy", p) = Loss("greedy", SelectSeq(p, LAMBDA a : a \notin {0, 8}))
           /\ (Loss("greedy", p) = One) = Sure
           /\ (Loss("squared", p) = Len(p) * (One \div 4)) = Sure
(* with known subspaces all connectors are the logical ones *)
Logical == Sure => LET y == [k \in 1..Len(p) |-> p[k] \div 8] IN
    /\ Label("and", "", y, p) = Label("none", "prod", y, p) /\ Label("none", "prod", y, p) = Label("none", "min", y, p)
    /\ Label("or", "", y, p) = Label("none", "max", y, p)
(* what is known of multi-sets: of all sets of items agreeing with the labels, those all or none of which contain x      *)
Items == 0..2
Agree(S, v, y) == \A j \in 1..Len(v) : (Bits(v[j]) \subseteq S) = (y[j] = 1)
MultiExact == Len(p) >= 2 => LET v == [j \in 1..(Len(p) - 1) |-> 1 + (p[j] % 7)] y == [j \in 1..(Len(p) - 1) |-> (p[Len(p)] \div j) % 2] x == 1 + (p[Len(p)] % 7)
                                 H == {S \in SUBSET Items : Agree(S, v, y)} IN
    H # {} => /\ (Known("multiset", v, y, x) = 8) = (\A S \in H : Bits(x) \subseteq S)
              /\ (Known("multiset", v, y, x) = 0) = (\A S \in H : ~(Bits(x) \subseteq S))
(* the least of the most uncertain points: no other point is ranked before that with all probabilities 1 / 2 *)
MostUncertain == LET half == [k \in 1..Len(p) |-> 4] IN Loss("greedy", half) <= Loss("greedy", p) /\ Loss("squared", half) <= Loss("squared", p)
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
Table(n, V) == TLCEval([j \in 1..n |-> TLCEval(R(V))])
Dims == 5
RandPart(k) == TLCEval([j \in 1..k |-> TLCEval(RandSeq(1..Dims, D(3)))])
Modes == {"numerical", "categorical", "multiset"}
(* values are in 1..7: as multi-sets they are not empty. Their labels are those of a category, or of the items.         *)
LabelsOf(mode) == IF mode # "multiset" THEN Table(7, {0, 1})
                  ELSE LET bad == TLCEval(R({{}, {0}, {1}, {2}, {0, 1}, {1, 2}})) IN [v \in 1..7 |-> IF Bits(v) \cap bad = {} THEN 1 ELSE 0]
NewScript ==
    LET kind == TLCEval(R(Kinds)) k == TLCEval(Pick(IF kind = "vs" THEN <<1, 2, 3>> ELSE <<1, 2, 3, 4, 5>>)) n == TLCEval(R(5..11)) modes == TLCEval(IF D(3) = 1 THEN Table(k, {"numerical"}) ELSE Table(k, Modes)) IN
    LET lab == TLCEval([j \in 1..k |-> TLCEval(LabelsOf(modes[j]))]) vals == TLCEval([r \in 1..n |-> Table(k, 1..7)]) IN
    TLCEval([kind |-> kind, k |-> k, n |-> n,
             (* stubs and margins: rows of numbers, and any partial labels *)
             pool |-> IF kind = "vs" THEN vals ELSE TLCEval([r \in 1..n |-> Table(Dims, 0..9)]),
             y |-> IF kind = "vs" THEN [r \in 1..n |-> [j \in 1..k |-> lab[j][vals[r][j]]]] ELSE TLCEval([r \in 1..n |-> Table(k, {0, 1})]),
             modes |-> modes, part |-> IF k = 1 /\ D(2) = 1 THEN <<>> ELSE RandPart(k),
             label |-> TLCEval(IF kind = "vs" THEN R({"and", "or", "prod"}) ELSE IF kind = "margin" THEN R({"and", "or", "odd"}) ELSE Pick(<<"and", "or", "none", "none", "odd">>)),
             proba |-> TLCEval(R({"min", "max", "prod", "last"})),
             rank |-> TLCEval(IF kind = "vs" THEN R({"greedy", "squared", "product", "max"}) ELSE R({"sum", "square", "max"}))])
Labeled(ops) == FoldLeft(LAMBDA s, o : IF o.op = "clear" THEN {} ELSE IF o.op = "label" THEN s \cup ToSet(o.b) ELSE s, {}, ops)
Blank == [op |-> "", b |-> <<>>, part |-> <<>>, modes |-> <<>>, sub |-> 0]
RandOp(sc, ops) ==
    LET d == D(16) free == (1..sc.n) \ Labeled(ops) IN
    CASE d <= 6 -> [Blank EXCEPT !.op = "label", !.b = TLCEval(RandSeq(free, D(3)))]
      [] d \in 7..9 -> [Blank EXCEPT !.op = "fit", !.b = TLCEval(RandSeq(1..sc.n, TLCEval(R(2..4))))]
      [] d \in 10..11 -> [Blank EXCEPT !.op = "refactor", !.part = IF sc.k = 1 /\ D(2) = 1 THEN <<>> ELSE RandPart(sc.k), !.modes = TLCEval(RandSeq(1..sc.k, sc.k))]
      [] d = 12 -> [Blank EXCEPT !.op = "clear"]
      [] d = 13 /\ sc.kind = "vs" -> [Blank EXCEPT !.op = "mismatch"]
      [] OTHER -> [Blank EXCEPT !.op = "query", !.sub = TLCEval(Pick(<<0, 0, 1, 2, 4, 20>>))]
SimInit == p = <<>> /\ g = <<>>
SimNext == /\ UNCHANGED p
           /\ g' = IF g = <<>> THEN <<NewScript>> ELSE Append(g, TLCEval(RandOp(g[1], Tail(g))))
SimExport == Len(g) = Depth + 1 => PrintT("SCRIPT " \o ToJson([s |-> g[1], ops |-> Tail(g)]))
=============================================================================
