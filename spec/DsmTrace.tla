------------------------------ MODULE DsmTrace ------------------------------
(* Judges recorded histories of dual space models. A trace is [kind, n, sub, always, steps]; a step is                *)
(* [op, b, upd, conflict, valid, know, ref, lab, inf, unk, ev, ret, pred, proba]:                                     *)
(*   b: batch of <<point, label>>   upd: batches the polytope was given    conflict: did it report one                *)
(*   valid, know: the polytope afterwards     ref: what a polytope given the same batches knows                        *)
(*   lab, inf, unk: partitions   ret: points to show to the user                                                      *)
(*   ev: [e, s, p]: "fit" (p: rows <<point, label>>), "pick" (learner chose p among s), "next" (learner asked for p)   *)
(*   pred, proba: of every point; the learner says 2 for odd points and 0 for even ones, and probability code 100 + k  *)
EXTENDS Dsm, TraceLib
VARIABLES t, i
vars == <<dvars, t, i>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ DsmInit(Traces[t].n)

Fn(b) == [x \in {b[j][1] : j \in 1..Len(b)} |-> LET j == CHOOSE j \in 1..Len(b) : b[j][1] = x IN b[j][2]]
Evs(s, e) == SelectSeq(s.ev, LAMBDA z : z.e = e)
UserRows == LET L == SetToSeq(Labeled) IN [j \in 1..Len(L) |-> <<L[j], label[L[j]]>>]
UserRowsNext == LET L == SetToSeq(DOMAIN label') IN [j \in 1..Len(L) |-> <<L[j], label'[L[j]]>>]
Codes(p, k) == [j \in 1..Len(p) |-> <<p[j], k[p[j]]>>]
Known(p) == SelectSeq(p, LAMBDA x : know[x] # 1)
Min2(a, b) == IF a < b THEN a ELSE b

(* the picks of an ask, in order: the cache they leave, and failures *)
RECURSIVE Walk(_, _, _)
Walk(ev, c, bad) ==
    IF ev = <<>> THEN [cache |-> c, bad |-> bad]
    ELSE LET z == ev[1] IN
         IF z.e # "pick" THEN Walk(Tail(ev), c, bad \cup C(z.e = "fit" => SameBag(z.p, UserRows \o c), "P19.training_set"))
         ELSE LET k == Known(z.p)
                  c2 == c \o Codes(k, know)
                  rest == SelectSeq(Tail(ev), LAMBDA w : TRUE) IN
              Walk(rest, c2, bad
                   \cup C(k = <<>> \/ (rest # <<>> /\ rest[1].e = "fit"), "P19.pick_not_learned")
                   \cup C(k = z.p \/ \A w \in ToSet(rest) : w.e # "pick", "P19.unknown_pick_not_shown")
                   \cup C((ToSet(z.s) \subseteq Unlabeled /\ Len(z.s) = Min2(IF Tr.sub = 0 THEN 1000 ELSE Tr.sub, Cardinality(Unlabeled)))
                          \/ (ToSet(z.s) \subseteq Unknown /\ Len(z.s) = Min2(IF Tr.sub = 0 THEN 1000 ELSE Tr.sub, Cardinality(Unknown)))
                          , "P19.candidates")
                   \cup C(Tr.always = 1 => ToSet(z.s) \subseteq Unknown, "P19.candidates"))
Picks(s) == Evs(s, "pick")
AskClauses(s) ==
    LET shown == ToSet(s.ret)
        own == valid /\ Unknown # {}
        w == Walk(s.ev, cache, {}) IN
       C(shown # {} /\ Distinct(s.ret) /\ shown \subseteq Unlabeled, "P19.shown_unlabeled")
  \cup C(\A x \in shown : Askable(x), "P19.shown_known")
  \cup (IF own
        THEN w.bad \cup C(Picks(s) # <<>> /\ shown = {x \in ToSet(Picks(s)[Len(Picks(s))].p) : know[x] = 1}, "P19.shown_not_the_pick")
             \cup C(Evs(s, "next") = <<>>, "P19.delegated")
        ELSE C(Len(Evs(s, "next")) = 1 /\ SameBag(Evs(s, "next")[1].p, s.ret) /\ Picks(s) = <<>>, "P19.not_delegated"))

TrainClauses(s) ==
    LET fits == Evs(s, "fit") IN
       C(fits # <<>> /\ SameBag(fits[Len(fits)].p, UserRowsNext \o cache'), "P19.training_set")
  \cup C(IF valid THEN s.upd = <<s.b>> \/ Tr.kind # "stub" ELSE s.upd = <<>>, "P18.polytope_batch")
  \cup C(s.know = s.ref, "P18.polytope_knowledge")

Views(s) ==
       C(Lists(s.lab, DOMAIN label'), "P18.labeled_partition")
  \cup C(Lists(s.inf, inferred'), "P18.inferred_partition")
  \cup C(Lists(s.unk, (DOMAIN know' \ DOMAIN label') \ inferred'), "P18.unknown_partition")
  \cup C(\A k \in DOMAIN know' : s.pred[k] = (IF valid' /\ know'[k] # 1 THEN know'[k] ELSE IF k % 2 = 1 THEN 2 ELSE 0), "P18.predict")
  \cup C(\A k \in DOMAIN know' : s.proba[k] = (IF valid' /\ know'[k] # 1 THEN know'[k] ELSE 100 + k), "P18.predict_proba")
  \cup C(s.know = know' /\ (s.valid = 1) = valid', "P18.polytope_changed")
  \cup C(valid' \/ \A k \in DOMAIN know' : know'[k] = 1, "P18.knowledge_when_invalid")

Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i'] IN
       CASE s.op = "collect" -> Collect(Fn(s.b)) /\ Report(t, i', Views(s))
         [] s.op = "label"   -> /\ Train(Fn(s.b), s.know, s.valid = 1, s.conflict = 1)
                                /\ Report(t, i', TrainClauses(s) \cup Views(s))
         [] s.op = "ask"     -> /\ cache' = IF valid /\ Unknown # {} THEN Walk(s.ev, cache, {}).cache ELSE cache
                                /\ UNCHANGED <<label, inferred, know, valid>>
                                /\ Report(t, i', AskClauses(s) \cup Views(s))
         [] OTHER            -> /\ label' = <<>> /\ inferred' = {} /\ cache' = <<>> /\ valid' = TRUE
                                /\ know' = [x \in DOMAIN know |-> 1]
                                /\ Report(t, i', Views(s) \cup C(Len(Evs(s, "clear")) > 0 /\ s.valid = 1 /\ s.know = know', "P19.reset"))
Spec == Init /\ [][Step]_vars
=============================================================================
