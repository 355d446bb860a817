----------------------------- MODULE Inference -----------------------------
(* Inference over factorized categorical data from final labels only. A point is a sequence of values, one per        *)
(* subspace; it is positive iff all its values are. P and N are the positive and negative points seen.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
PosVals(P, j) == {x[j] : x \in P}
IsPos(P, j, v) == v \in PosVals(P, j)
(* v is the only value of a negative point that can be negative *)
IsNeg(P, N, j, v) == \E x \in N : x[j] = v /\ ~IsPos(P, j, v) /\ \A k \in 1..Len(x) : k # j => IsPos(P, k, x[k])
Contradiction(P, N) == \E x \in N : \A k \in 1..Len(x) : IsPos(P, k, x[k])
Partial(P, N, j, v) == IF IsPos(P, j, v) THEN 2 ELSE IF IsNeg(P, N, j, v) THEN 0 ELSE 1
Least(S) == CHOOSE y \in S : \A z \in S : y <= z
Final(P, N, x) == Least({Partial(P, N, j, x[j]) : j \in 1..Len(x)})
=============================================================================
