------------------------------ MODULE ArgsTrace ------------------------------
(* Judges configurations tried on the real code. A step adds to what was asked: answer ("ok", "refused" with a          *)
(* ValueError or TypeError, or another exception's name) and value, the value of the penalty kept throughout, in halves.            *)
EXTENDS Args, TraceLib
VARIABLES t, i
vars == <<t, i, setting>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ ArgsInit
Expected(s) == CASE s.op = "make"     -> Admitted(s.what, s.args)
                 [] s.op = "choose"   -> Known(s.what, s.args)
                 [] s.op = "fit"      -> Fit(s.what, s.m, s.n)
                 [] s.op = "set"      -> Admits("positive", s.args[1])
                 [] s.op = "possible" -> Possible(s.m, s.args[1], s.args[2])
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i']
           ok == TLCEval(Expected(s)) IN
       /\ IF s.op = "set" THEN Set(s.args[1]) ELSE UNCHANGED setting
       /\ Report(t, i',
               C(ok => s.answer = "ok", "P41.refused_though_admitted")
            \cup C(~ok => s.answer # "ok", "P41.admitted")
            \cup C(~ok => s.answer \in {"ok", "refused"}, "P41.fails_otherwise")
            \cup C(s.value = setting', "P41.setting"))
Spec == Init /\ [][Step]_vars
=============================================================================
