---------------------------- MODULE ExploreTrace ----------------------------
(* Judges recorded explorations. A trace is [c, sub, steps]; c is the configuration, sub the subsample size (0: none).*)
(* A step is [k, ev, rec, recs, args]:                                                                               *)
(*   k = "start"   a run begins            k = "it"  an iteration's record was handed out                            *)
(*   k = "end"     a run has ended         k = "quit" its reader abandoned it        k = "final"  all is over        *)
(*   ev  : the calls made since the previous step, in order, as [e, ids, lab, ts, x, m]:                              *)
(*         clear, sam (sampler asked), nxt (learner asked), fit, cb (callback x), crit (criterion asked),             *)
(*         pul (labels predicted for all points)                                                                     *)
(*   nargs: arguments of a direct call of the noise injector                                                          *)
(*   rec : the record of the iteration;  recs: all records handed out, as they are at the end;  args: arguments      *)
EXTENDS Explore, TraceLib
VARIABLES t, i, given, flips
tvars == <<t, i, given, flips>>

Cfg == Traces[t].c
Steps == Traces[t].steps

Init == t \in 1..Len(Traces) /\ i = 0 /\ given = <<>> /\ flips = <<0, 0>> /\ RunInit

Evs(s, names) == SelectSeq(s.ev, LAMBDA x : x.e \in names)
Asks(s) == Evs(s, {"sam", "nxt"})
Batch(s) == IF Asks(s) = <<>> THEN s.rec.idx ELSE Asks(s)[1].ids
Pos(s, names) == {j \in 1..Len(s.ev) : s.ev[j].e \in names}
FirstAsk(s) == IF Pos(s, {"sam", "nxt"}) = {} THEN 1 ELSE Min(Pos(s, {"sam", "nxt"}))

(* the labels given to the model, according to the record *)
ByPoint(idx, ys, ps) == [x \in ToSet(idx) |-> LET j == CHOOSE j \in 1..Len(idx) : idx[j] = x IN [y |-> ys[j], p |-> ps[j]]]
Given(s) == IF s.rec.hasn = 1 THEN ByPoint(s.rec.idx, s.rec.ny, s.rec.np) ELSE [x \in ToSet(Batch(s)) \cap Points(Cfg) |-> Cfg.truth[x]]
Rows(f) == {<<x, f[x].y, f[x].p>> : x \in DOMAIN f}
Extra(s) == ToSet(s.rec.extra)
TimeNames == {"iter_time", "fit_time", "get_next_time", "callback_time"}

CritOk(e, it, lbl, m) == e.x = <<it>> /\ ToSet(e.lab) = lbl /\ ToSet(e.m) \subseteq m
PulOk(e, k) == Lists(e.ts, {<<x, IF x \in DOMAIN k THEN k[x].y ELSE x % 2, 0>> : x \in Points(Cfg)})

IterationClauses(s) ==
    LET c == Cfg
        b == Batch(s)
        asks == Asks(s)
        fitevs == Evs(s, {"fit"})
        cbs == Evs(s, {"cb"})
        fa == FirstAsk(s)
        trained == Exploring(c, known')
        due == CallbacksDue(c, iters', OfLearner(c, iters', trained), labeled')
        recordOk == Lists([j \in 1..Len(s.rec.idx) |-> <<s.rec.idx[j], s.rec.y[j], s.rec.p[j]>>],
                          {<<x, c.truth[x].y, c.truth[x].p>> : x \in ToSet(b) \cap Points(c)})
        trainedOk == \A j \in 1..Len(fitevs) : Lists(fitevs[j].ts, Rows(known'))
        cbNames == UNION {{x[1] : x \in UNION {ToSet(c.cbs[j][k]) : k \in 1..Len(c.cbs[j])}} : j \in 1..Len(c.cbs)}
    IN   C(Len(asks) = 1, "P06.asked_once")
    \cup C(asks = <<>> \/ asks[1].e = (IF Exploring(c, known) THEN "nxt" ELSE "sam"), "P06.who_is_asked")
    \cup C(ToSet(b) \subseteq Points(c) \ labeled /\ Distinct(b) /\ b # <<>>, "P05.shown_unlabeled")
    \cup C(asks = <<>> \/ Lists(asks[1].lab, labeled), IF iters = 0 THEN "P10.dataset_reset" ELSE "P05.dataset_when_asked")
    \cup C(recordOk, "P05.record")
    \cup C(c.noise.on = 0 \/ recordOk, "P12.record_keeps_truth")
    \cup C(s.rec.phase = PhaseName(c, known), "P06.phase")
    \* noise
    \cup C(NoiseActive(c) => s.rec.hasn = 1, "P12.noise_missing")
    \cup C(c.noise.on = 0 => s.rec.hasn = 0, "P12.noise_unasked")
    \cup C(s.rec.hasn = 0 \/ (Len(s.rec.ny) = Len(b) /\ Len(s.rec.np) = Len(b)
                 /\ \A x \in ToSet(b) \cap Points(c) : x \in DOMAIN Given(s) /\ Given(s)[x] \in (IF NoiseActive(c) THEN Noisy(c, c.truth[x]) ELSE {c.truth[x]})), "P12.noisy_labels")
    \cup C(c.noise.on = 0 \/ trainedOk, "P12.trained_on_noisy_labels")
    \* training
    \cup C(Len(fitevs) = (IF trained THEN 1 ELSE 0), "P06.trained_once")
    \cup C(trainedOk, "P06.trained_on_all_labels")
    \cup C(\A j \in Pos(s, {"fit"}) : j > fa, "P06.trained_after_labeling")
    \cup C(iters = 0 => Pos(s, {"clear"}) # {} /\ Min(Pos(s, {"clear"})) < fa, "P10.learner_reset")
    \cup C(\A j \in Pos(s, {"clear"}) : iters = 0 /\ j < fa, "P06.no_reset_within_run")
    \* callbacks
    \cup C([j \in 1..Len(cbs) |-> cbs[j].x[1]] = (IF due THEN [j \in 1..Len(c.cbs) |-> j] ELSE <<>>), "P08.schedule")
    \cup C(\A j \in 1..Len(cbs) : Lists(cbs[j].lab, labeled') /\ Lists(cbs[j].ts, Rows(known')) /\ cbs[j].x[2] = fits', "P08.state_seen")
    \cup C({x \in Extra(s) : x[1] \in cbNames} = (IF due THEN OfCallbacks(c, iters') ELSE {}), "P08.recorded")
    \* records
    \cup C(Extra(s) = shown', "P09.own_metrics")
    \cup C(s.rec.other = <<>> /\ ToSet(s.rec.times) \subseteq TimeNames, "P09.other_entries")
    \cup C("callback_time" \in ToSet(s.rec.times) => due, "P09.callback_time")
    \cup C("fit_time" \in ToSet(s.rec.times) /\ "get_next_time" \in ToSet(s.rec.times) /\ "iter_time" \in ToSet(s.rec.times), "P09.times")
    \* stopping
    \cup C(~Stopped(c), "P07.continued")
    \cup C(labeled # Points(c), "P05.continued_when_all_labeled")
    \cup C(\A j \in Pos(s, {"crit"}) : IF j < fa THEN CritOk(s.ev[j], iters, labeled, shown) ELSE CritOk(s.ev[j], iters', labeled', shown'), "P07.criterion_view")
    \cup C(\A j \in Pos(s, {"pul"}) : IF j < fa THEN PulOk(s.ev[j], known) ELSE PulOk(s.ev[j], known'), "P29.manager")
    \cup C(\A j \in Pos(s, {"nxt"}) : s.ev[j].x = <<Traces[t].sub>>, "P20.subsample_size")

EndClauses(s) ==
         C(Stopped(Cfg), "P07.stopped_early")
    \cup C(Stopped(Cfg) \/ Cfg.maxit >= 0 \/ Cfg.thr # <<>> \/ Cfg.crit # <<>> \/ Cfg.full > 0, "P05.stopped_early")
    \cup C(Pos(s, {"sam", "nxt", "fit"}) = {}, "P07.worked_after_end")
    \cup C(Pos(s, {"cb"}) = {}, "P08.callback_after_end")
    \cup C(\A j \in Pos(s, {"crit"}) : CritOk(s.ev[j], iters, labeled, shown), "P07.criterion_view")
    \cup C(\A j \in Pos(s, {"pul"}) : PulOk(s.ev[j], known), "P29.manager")

FinalClauses(s) ==
         C(s.recs = given, "P09.changed_later")
    \cup C(\A a \in ToSet(s.args) : a[2] = a[3], "P11.arguments")
    \cup C(\A a \in ToSet(s.nargs) : a[2] = a[3], "P12.injector_changed_its_argument")
    \* all outcomes of noise on few points, whatever the batch
    \cup C(s.few = <<>> \/ ToSet(s.nset) = {<<s.few, o>> : o \in {o \in [1..Len(s.few) -> UNION {Noisy(Cfg, Cfg.truth[k]) : k \in ToSet(s.few)}] : \A j \in 1..Len(s.few) : o[j] \in Noisy(Cfg, Cfg.truth[s.few[j]])}}, "P12.outcomes")
    \* with many points exposed to noise of a middling probability, some are flipped and some are not
    \cup C((Cfg.noise.on = 1 /\ Cfg.noise.pct \in 20..80 /\ flips[1] >= 60) => flips[2] > 0 /\ flips[2] < flips[1], "P12.probability")
    \cup C((Cfg.noise.on = 1 /\ Cfg.noise.pct = 30 /\ flips[1] >= 400) => flips[2] * 100 > flips[1] * 17 /\ flips[2] * 100 < flips[1] * 43, "P12.probability")

Step ==
    /\ i < Len(Steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Steps[i'] IN
       CASE s.k = "start" -> StartRun /\ UNCHANGED <<given, flips>>
         [] s.k = "it"    -> LET l == Given(s) IN
                             /\ Iterate(Cfg, Batch(s), l)
                             /\ given' = Append(given, s.rec)
                             /\ flips' = IF NoiseActive(Cfg) THEN <<flips[1] + Cardinality(DOMAIN l), flips[2] +
                                              Cardinality({x \in DOMAIN l \cap Points(Cfg) : l[x].y # Cfg.truth[x].y})>> ELSE flips
                             /\ Report(t, i', IterationClauses(s))
         [] s.k = "end"   -> UNCHANGED <<evars, given, flips>> /\ Report(t, i', EndClauses(s))
         [] s.k = "quit"  -> UNCHANGED <<evars, given, flips>>
         [] s.k = "final" -> UNCHANGED <<evars, given, flips>> /\ Report(t, i', FinalClauses(s))
Spec == Init /\ [][Step]_<<evars, tvars>>
=============================================================================
