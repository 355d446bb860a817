--------------------------- MODULE InferenceTrace ---------------------------
(* Judges recorded histories of Inference. A trace is [k, pool, steps]; a step is [op, b, r, parts, pred]: the batch    *)
(* as <<pool point, label>>, whether the update was accepted, and labels of the pool afterwards.                     *)
EXTENDS Inference, TraceLib
VARIABLES t, i, P, N
vars == <<t, i, P, N>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ P = {} /\ N = {}
Of(s, y) == {Tr.pool[e[1]] : e \in {z \in ToSet(s.b) : z[2] = y}}
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i'] IN
       /\ P' = IF s.op = "clear" THEN {} ELSE P \cup Of(s, 2)
       /\ N' = IF s.op = "clear" THEN {} ELSE N \cup Of(s, 0)
       /\ LET c == Contradiction(P', N') IN
          Report(t, i', C((s.r = 1) = ~c, IF c THEN "P28.contradiction_not_reported" ELSE "P28.false_contradiction")
            \cup (IF c \/ s.r # 1 THEN {}
                  ELSE   C(\A q \in 1..Len(Tr.pool) : \A j \in 1..Tr.k : s.parts[q][j] = Partial(P', N', j, Tr.pool[q][j]), "P28.partial_label")
                    \cup C(\A q \in 1..Len(Tr.pool) : s.pred[q] = Final(P', N', Tr.pool[q]), "P28.final_label")))
Spec == Init /\ [][Step]_vars
=============================================================================
