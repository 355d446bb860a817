----------------------------- MODULE ReproTrace -----------------------------
(* Judges recorded runs [c, s, h, w, l]: configuration, seed, the batches labeled (indexes, labels), whether the run   *)
(* was read to its end, and the predictions of the learner afterwards.                                              *)
EXTENDS Repro, TraceLib
VARIABLES t, i
Init == t \in 1..Len(Traces) /\ i = 0 /\ memo = <<>>
Step ==
    /\ i < Len(Traces[t].steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Traces[t].steps[i'] IN
          /\ memo' = Learn(<<s.c, s.s>>, s.h, s.w = 1, s.l)
          /\ Report(t, i', C(SameRun(<<s.c, s.s>>, s.h, s.w = 1, s.l), "P10.same_seed_differs"))
Spec == Init /\ [][Step]_<<memo, t, i>>
=============================================================================
