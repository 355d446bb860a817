---------------------------- MODULE VersionSpace ----------------------------
(* Linear hypotheses w of the unit ball agreeing with labels: a w < 0 for every row a of A. Vectors are sequences of   *)
(* integers; a rational vector X / S is given by its numerators X and its denominator S.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Dot(a, x) == FoldLeftDomain(LAMBDA s, j : s + a[j] * x[j], 0, a)
Plus(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
Times(k, a) == [j \in 1..Len(a) |-> k * a[j]]
AbsV(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* The cone (open), and the body: its intersection with the unit ball (closed)                                         *)
InCone(A, X) == \A k \in 1..Len(A) : Dot(A[k], X) < 0
InBody(A, X, S) == InCone(A, X) /\ Dot(X, X) <= S * S

(* Points labeled 1 are in the cone of w as x . w > 0: the rows of A are the negated points, and those labeled 0 as   *)
(* they are. Rows may begin with a constant 1, standing for the intercept.                                             *)
Row(x, intercept) == IF intercept THEN <<1>> \o x ELSE x
Signed(x, y, intercept) == LET r == Row(x, intercept) IN IF y = 1 THEN Times(-1, r) ELSE r
Labels(w, x, intercept) == Sgn(Dot(w, Row(x, intercept)))

(* Sufficient reasons for all hypotheses agreeing with A to agree on a row: it is a combination of two of its rows      *)
Combines(A, r) == \E j \in 1..Len(A) : \E k \in j..Len(A) : \E p, q \in 0..2 : \E m \in 1..2 :
                     p + q > 0 /\ Plus(Times(p, A[j]), Times(q, A[k])) = Times(m, r)
Forced(A, x, y, intercept) == Combines(A, Signed(x, y, intercept))

(* The half space g x < b (b in {0, 1}) cuts off the point X / S, and contains the body: it is one of the cone's, or   *)
(* one containing the ball                                                                                             *)
OneOf(A, g) == \E k \in 1..Len(A) : g = A[k]
=============================================================================
