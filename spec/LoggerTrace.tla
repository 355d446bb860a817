---------------------------- MODULE LoggerTrace ----------------------------
(* Judges recorded uses of the metric logger. A step is [op, kvs, o, refused, now, held, t]: what was asked, whether   *)
(* it was refused, the log as <<name, kind, numbers>> afterwards, the contents of all dictionaries handed out, and the   *)
(* execution times (0 stands for a plausible one). Uses which are left open are not made (op "skip").                  *)
EXTENDS Logger, TraceLib
VARIABLES t, i
vars == <<t, i, log, held>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ LoggerInit
Dict(d) == [k \in {e[1] : e \in ToSet(d)} |-> LET e == CHOOSE x \in ToSet(d) : x[1] = k IN [kind |-> e[2], v |-> e[3]]]
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i'] IN
       /\ CASE s.op \in {"log", "logs", "timed"} /\ s.o \in Options -> LogAll(s.kvs, s.o)
            [] s.op = "flush" -> Flush
            [] s.op = "hold"  -> Hold
            [] OTHER -> UNCHANGED lvars
       /\ LET wrong == s.op # "skip" /\ s.kvs # <<>> /\ s.o \notin Options IN
          Report(t, i',
               C((s.refused = 1) = wrong, "P31.refused")
            \cup C(Dict(s.now) = log', IF s.op = "flush" THEN "P31.flush" ELSE "P31.log")
            \cup C(\A k \in 1..Len(held') : held'[k].stale => s.held[k] = Tr.steps[i].held[k], "P31.handed_out_dictionary_changed")
            (* one handed out since the last flush may or may not follow the log *)
            \cup C(\A k \in 1..Len(held') : ~held'[k].stale => Dict(s.held[k]) = log' \/ (k <= Len(held) /\ i >= 1 /\ s.held[k] = Tr.steps[i].held[k]), "P31.handed_out_dictionary"))
Spec == Init /\ [][Step]_vars
=============================================================================
