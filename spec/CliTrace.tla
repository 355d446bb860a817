------------------------------ MODULE CliTrace ------------------------------
(* Judges recorded sessions. A trace is [n, maxit, samp, sub, steps]; a step is [q, pts, ans, ev]:                    *)
(*   q: "cont" or "label" prompt, "end" of the session, "cut" (no more answers)                                       *)
(*   pts: points shown by the prompt      ans: the answer given                                                       *)
(*   ev: what happened before the prompt, as [e, p, sub]: "pick" (points chosen, by the learner among at most sub       *)
(*       candidates, 0 standing for all, or by the initial sampler, sub = -1), "fit" (rows <<point, label>>)            *)
EXTENDS Cli, TraceLib
VARIABLES t, i, told,   \* the learner was last trained on this, <<>> if never
          last          \* "n" was answered
vars == <<cvars, t, i, told, last>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ CliInit /\ told = <<>> /\ last = FALSE
Evs(s, e) == SelectSeq(s.ev, LAMBDA z : z.e = e)
Rows == LET L == SetToSeq(DOMAIN labels) IN [j \in 1..Len(L) |-> <<L[j], labels[L[j]]>>]
Learning == Tr.samp = 0 \/ BothLabels
(* after the labels of an iteration have been read, before anything else is asked *)
FitClauses(s) ==
    LET f == Evs(s, "fit")
        fresh == iters > 0 /\ mode = "cont" /\ ~last IN
       C(\A j \in 1..Len(f) : SameBag(f[j].p, Rows), "P13.training_set")
  \cup C(fresh /\ Learning /\ i > 0 /\ Tr.steps[i].q = "label" => Len(f) > 0, "P13.not_trained")
  \cup C(~(fresh /\ Learning) => f = <<>>, "P13.trained_too_early")
Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED <<t, told>>
    /\ LET s == Tr.steps[i']
           picks == Evs(s, "pick")
           over == Over(Tr.n, Tr.maxit) IN
       CASE s.q = "cont" ->
              /\ last' = No(s.ans)
              /\ IF mode = "cont" /\ ~last THEN AnswerCont(s.ans, <<>>) ELSE UNCHANGED cvars
              /\ Report(t, i', C(mode = "cont", "P13.labels_not_read") \cup C(~last, "P13.continues_after_n")
                               \cup C(~over, "P13.continues_once_converged") \cup C(picks = <<>>, "P13.picked_without_consent") \cup FitClauses(s))
         [] s.q = "label" ->
              /\ last' = last
              /\ LET b == IF shown = <<>> /\ picks # <<>> THEN picks[1].p ELSE shown IN
                 /\ IF mode = "label"
                    THEN IF WellFormed(s.ans, Len(b))
                         THEN /\ labels' = [x \in DOMAIN labels \cup ToSet(b) |->
                                            IF x \in ToSet(b) THEN Values(s.ans)[CHOOSE j \in 1..Len(b) : b[j] = x] ELSE labels[x]]
                              /\ mode' = "cont" /\ iters' = iters + 1 /\ shown' = <<>>
                         ELSE shown' = b /\ UNCHANGED <<mode, labels, iters>>
                    ELSE UNCHANGED cvars
                 /\ Report(t, i', C(mode = "label", IF last THEN "P13.continues_after_n" ELSE "P13.consent_not_asked")
                                  \cup C(mode = "label" => s.pts = b, "P13.points_shown")
                                  \cup C(mode = "label" /\ picks # <<>> => picks[1].sub = (IF Learning THEN Tr.sub ELSE -1), "P13.picked_otherwise_than_configured")
                                  \cup C(mode = "label" => Len(picks) = (IF shown = <<>> THEN 1 ELSE 0), "P13.picked_again")
                                  \cup C(ToSet(b) \cap DOMAIN labels = {}, "P13.points_shown_again")
                                  \cup FitClauses(s))
         [] s.q = "end" ->
              /\ UNCHANGED <<cvars, last>>
              /\ Report(t, i', C(last \/ over, "P13.stops_early") \cup C(mode = "cont" \/ last, "P13.labels_not_read") \cup FitClauses(s))
         [] OTHER ->
              /\ UNCHANGED <<cvars, last>>
              /\ Report(t, i', C(~last, "P13.continues_after_n") \cup FitClauses(s)
                               \cup C(mode = "cont" /\ s.pts = <<>> => ~over, "P13.continues_once_converged"))
Spec == Init /\ [][Step]_vars
=============================================================================
