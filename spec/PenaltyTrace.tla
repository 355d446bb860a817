---------------------------- MODULE PenaltyTrace ----------------------------
(* Judges values, gradients, proximal points and optimality tests of penalties.                                                *)
EXTENDS Penalty, TraceLib
VARIABLES t, i
vars == <<t, i>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0
Near(m, n, tol) == \A r \in 1..Len(m) : \A c \in 1..Len(m[r]) : AbsV(m[r][c] - n[r][c]) <= tol
Finite(m) == \A r \in 1..Len(m) : \A c \in 1..Len(m[r]) : AbsV(m[r][c]) < 100000000
Small(m) == \A r \in 1..Len(m) : \A c \in 1..Len(m[r]) : AbsV(m[r][c]) <= 16000
Verdict(s) == LET p == Tr.p IN
      C(s.same = 1, "P36.argument_modified")
    \cup (CASE s.op = "loss" -> C(AbsV(s.val - Loss(p, s.q)) <= 4 + 4 * Len(s.q) * Len(s.q[1]), "P36.value")
            [] s.op = "grad" -> IF ~Finite(s.m) THEN {"P36.gradient_not_finite"}
                                ELSE IF Smooth(p) THEN C(Near(s.m, SmoothGrad(p, Units(s.q)), 4), "P36.gradient")
                                ELSE C(Small(s.m) /\ IsSubgradient(p, s.m, Units(s.q), 40), "P36.gradient")
            [] s.op = "prox" -> C(Near(s.m, Prox(p, Units(s.q), s.eta), 12), "P36.proximal")
            [] s.op = "sub" ->
                IF s.tiny = 1 \/ ~Small(s.v) THEN {}
                ELSE LET e == Max(Excess(p, s.v, s.x) \cup {0}) IN
                     IF e <= 40 THEN C(s.is = 1, "P36.optimum_not_recognized") ELSE IF e >= 1200 THEN C(s.is = 0, "P36.not_an_optimum") ELSE {})
Step == /\ i < Len(Tr.steps)
        /\ i' = i + 1 /\ UNCHANGED t
        /\ Report(t, i', Verdict(Tr.steps[i']))
Spec == Init /\ [][Step]_vars
=============================================================================
