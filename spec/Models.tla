------------------------------- MODULE Models -------------------------------
(* Models of regions which infer labels from labels: convex polytopes, categorical values and multi-sets, alone or    *)
(* one per subspace. Everything is a function of the sets of positive and negative points seen (hence not of order or  *)
(* batching), apart from points in special position, where floating point leaves a choice.                           *)
(* Labels are 0 (negative), 2 (positive), and 1 stands for unknown.                                                 *)
(* A subspace is [mode, pos, neg, vp, vn]: points seen and validity of the assumption that positive points form a    *)
(* convex region (or that the discrete model holds), and of the opposite one.                                       *)
EXTENDS Geometry

Fresh(mode) == [mode |-> mode, pos |-> {}, neg |-> {}, vp |-> mode # "negative", vn |-> mode \in {"negative", "persist"}]
Numeric(mode) == mode \in {"positive", "negative", "persist"}

(* Convex region containing P and avoiding N: is this contradicted? {TRUE}, {FALSE}, or both in special position     *)
ConvexConflict(P, N) ==
    IF P = {} \/ N = {} THEN {FALSE}
    ELSE IF \E n \in N : IF Dim(P) = 1 THEN n \in P \/ InHull(P, n) ELSE InInterior(P, n) THEN {TRUE}
    ELSE IF \E n \in N : InHull(P, n) \/ InFlat(P, n) THEN {TRUE, FALSE}
    ELSE {FALSE}

(* What a valid convex model may predict *)
ConvexPredict(P, N, x) ==
    LET cone == \E n \in N : InCone(P, n, x) IN
    IF InHull(P, x) THEN (IF cone THEN {0, 2} ELSE {2})   \* both only if a contradiction in special position went unnoticed
    ELSE IF cone THEN {0}
    ELSE IF ~Spans(P) /\ x \in P THEN {1, 2}          \* a single point seen twice may count as a region
    ELSE {1}
Flip(S) == {2 - y : y \in S}

(* Points of the discrete models are one value, as <<value>>, or a 0-1 sequence of items *)
Items(x) == {k \in 1..Len(x) : x[k] = 1}
PosItems(P) == UNION {Items(x) : x \in P}
NegItems(P, N) == {k \in UNION {Items(x) : x \in N} : \E x \in N : Items(x) \ PosItems(P) = {k}}
MultiPredict(P, N, x) ==
    IF Items(x) \cap NegItems(P, N) # {} THEN {0}
    ELSE IF Items(x) \subseteq PosItems(P) THEN (IF P = {} THEN {1, 2} ELSE {2})
    ELSE {1}
MultiConflict(P, N) == \E x \in N : Items(x) \subseteq PosItems(P)

Valid(s) == s.vp \/ s.vn
Predict(s, x) ==
    IF ~Valid(s) THEN {1}
    ELSE CASE Numeric(s.mode) -> IF s.vp THEN ConvexPredict(s.pos, s.neg, x) ELSE Flip(ConvexPredict(s.neg, s.pos, x))
           [] s.mode = "categorical" -> IF x \in s.pos THEN {2} ELSE IF x \in s.neg THEN {0} ELSE {1}
           [] OTHER -> MultiPredict(s.pos, s.neg, x)

(* Conflict of each assumption with what has been seen: sets of possible answers *)
PosConflict(s) ==
    CASE Numeric(s.mode) -> IF s.vp THEN ConvexConflict(s.pos, s.neg) ELSE {TRUE}
      [] s.mode = "categorical" -> {~s.vp \/ s.pos \cap s.neg # {}}
      [] OTHER -> {~s.vp \/ MultiConflict(s.pos, s.neg)}
NegConflict(s) == IF Numeric(s.mode) /\ s.vn THEN ConvexConflict(s.neg, s.pos) ELSE {TRUE}

Seen(s, b) == [s EXCEPT !.pos = @ \cup {e[1] : e \in {z \in b : z[2] = 2}}, !.neg = @ \cup {e[1] : e \in {z \in b : z[2] = 0}}]
(* The possible outcomes of seeing batch b (a set of <<point, label>>), which a valid model only does: next states *)
Updates(s, b) == LET t == Seen(s, b) IN {[t EXCEPT !.vp = ~c, !.vn = ~d] : c \in PosConflict(t), d \in NegConflict(t)}
(* the update reports failure iff an assumption so far valid is found contradicted *)
Succeeds(s, t) == s.vp = t.vp /\ s.vn = t.vn

----------------------------------------------------------------------------
(* Factorized models: a sequence of subspaces, each seeing its own coordinates and labels *)
AnyValid(f) == \E j \in 1..Len(f) : Valid(f[j])
AllValid(f) == \A j \in 1..Len(f) : Valid(f[j])
Min2(S) == CHOOSE y \in S : \A z \in S : y <= z
(* x[j] is the part of the point in subspace j; pick the least of the parts, unknown at best if a subspace is invalid *)
FactPredict(f, x) ==
    LET combos == {g \in [1..Len(f) -> {0, 1, 2}] : \A j \in 1..Len(f) : g[j] \in (IF Valid(f[j]) THEN Predict(f[j], x[j]) ELSE {1})} IN
    {Min2({g[j] : j \in 1..Len(f)}) : g \in combos}
=============================================================================
