------------------------------ MODULE Geometry ------------------------------
(* Exact convex geometry over points with one to three integer coordinates (sequences of integers).                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Det(m) ==
    CASE Len(m) = 1 -> m[1][1]
      [] Len(m) = 2 -> m[1][1] * m[2][2] - m[1][2] * m[2][1]
      [] OTHER      -> m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
                     - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
                     + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Diff(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
Dim(P) == Len(CHOOSE p \in P : TRUE)

Choose(k, S) == IF k > Cardinality(S) THEN {} ELSE kSubset(k, S)
(* of d + 1 points *)
Orient(s) == Det([i \in 1..(Len(s) - 1) |-> Diff(s[i + 1], s[1])])
InSimplex(s, x) == LET o == Orient(s) IN
    /\ o # 0
    /\ \A i \in 1..Len(s) : Orient([s EXCEPT ![i] = x]) * (IF o > 0 THEN 1 ELSE -1) >= 0

(* the points span the space affinely *)
Spans(P) == P # {} /\ \E S \in Choose(Dim(P) + 1, P) : Orient(SetToSeq(S)) # 0
(* x is in the convex hull of points spanning the space *)
InHull(P, x) == P # {} /\ \E S \in Choose(Dim(P) + 1, P) : InSimplex(SetToSeq(S), x)
OnBoundary(P, x) ==
    \E F \in Choose(Dim(P), P) :
        LET f == SetToSeq(F) IN
        /\ Orient(Append(f, x)) = 0
        /\ \E p \in P : Orient(Append(f, p)) # 0
        /\ \/ \A p \in P : Orient(Append(f, p)) >= 0
           \/ \A p \in P : Orient(Append(f, p)) <= 0
InInterior(P, x) == InHull(P, x) /\ ~OnBoundary(P, x)
(* x depends affinely on the points, which do not span the space *)
InFlat(P, x) == P # {} /\ ~Spans(P) /\ (x \in P \/ ~\E S \in Choose(Dim(P) + 1, P \cup {x}) : Orient(SetToSeq(S)) # 0)

(* x is in the cone which n sees opposite to the points: x = n + sum of c_i (n - p_i), c_i >= 0. The cone is full     *)
(* dimensional if the points span the space together with n.                                                        *)
InCone(P, n, x) ==
    P # {} /\ \E S \in Choose(Dim(P), P) :
        LET q == SetToSeq(S)
            v == [i \in 1..Len(q) |-> Diff(n, q[i])]
            D == Det(v) IN
        /\ D # 0
        /\ \A i \in 1..Len(q) : Det([v EXCEPT ![i] = Diff(x, n)]) * (IF D > 0 THEN 1 ELSE -1) >= 0
=============================================================================
