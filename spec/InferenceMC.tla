---------------------------- MODULE InferenceMC ----------------------------
(* The definitions compared with all assignments of labels to values consistent with the labels; scripts.            *)
EXTENDS Inference, TLC, Json
CONSTANTS K, V, MaxP, MaxN, SimK, SimV, Depth
VARIABLES P, N, g
vars == <<P, N, g>>
Grid == [1..K -> 1..V]
Worlds == TLCEval({A \in [1..K -> SUBSET (1..V)] : (\A x \in P : \A j \in 1..K : x[j] \in A[j]) /\ (\A x \in N : \E j \in 1..K : x[j] \notin A[j])})
Init == P = {} /\ N = {} /\ g = <<>>
Next == /\ UNCHANGED g
        /\ \E x \in Grid : \/ Cardinality(P) < MaxP /\ P' = P \cup {x} /\ UNCHANGED N
                           \/ Cardinality(N) < MaxN /\ N' = N \cup {x} /\ UNCHANGED P
Consistent == ~Contradiction(P, N)
ContradictionExact == Contradiction(P, N) <=> Worlds = {}
PartialExact == Consistent => LET W == Worlds IN \A j \in 1..K : \A v \in 1..V :
    LET F == {(v \in A[j]) : A \in W} IN
    Partial(P, N, j, v) = IF F = {TRUE} THEN 2 ELSE IF F = {FALSE} THEN 0 ELSE 1
FinalSound == Consistent => LET W == Worlds IN \A x \in Grid :
    /\ Final(P, N, x) = 2 <=> \A A \in W : \A j \in 1..K : x[j] \in A[j]
    /\ Final(P, N, x) = 0 => \A A \in W : \E j \in 1..K : x[j] \notin A[j]
Grows == [][Consistent /\ Consistent' => \A j \in 1..K : \A v \in 1..V :
              LET now == Partial(P, N, j, v) IN now # 1 => Partial(P', N', j, v) = now]_vars
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
NewScript ==
    LET k == TLCEval(R(1..SimK))
        v == TLCEval(R(2..SimV))
        m == TLCEval(R(5..18))
        A == TLCEval([j \in 1..k |-> TLCEval(ToSet(RandSeq(1..v, TLCEval(R(1..v)))))])
        pool == TLCEval([q \in 1..m |-> TLCEval([j \in 1..k |-> TLCEval(R(1..v))])])
        errs == TLCEval(D(4) = 1)
    IN TLCEval([k |-> k, pool |-> pool, y |-> TLCEval([q \in 1..m |-> IF (\A j \in 1..k : pool[q][j] \in A[j]) = ~(errs /\ D(6) = 1) THEN 2 ELSE 0])])
RandOp(sc) ==
    LET d == D(20) IN
    CASE d = 20 -> [op |-> "clear", b |-> <<>>]
      [] d = 11 -> [op |-> "copy", b |-> <<>>]
      [] OTHER -> [op |-> "update", b |-> TLCEval(RandSeq(1..Len(sc.pool), TLCEval(Pick(<<0, 1, 1, 2, 3, 4>>))))]
SimInit == Init
SimNext == /\ UNCHANGED <<P, N>>
           /\ g' = IF g = <<>> THEN <<NewScript>> ELSE Append(g, TLCEval(RandOp(g[1])))
SimExport == Len(g) = Depth + 1 => PrintT("SCRIPT " \o ToJson([s |-> g[1], ops |-> Tail(g)]))
=============================================================================
