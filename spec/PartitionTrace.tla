--------------------------- MODULE PartitionTrace ---------------------------
(* Judges recorded histories of a real dataset.                                                                     *)
(* A trace is [n, steps]; a step is [op, b, y, p, err, o, r]: the operation and its arguments, whether it raised    *)
(* an exception, everything that can be observed afterwards, and the operation's own result.                       *)
EXTENDS Partition, TraceLib

VARIABLES t, i, held   \* trace, number of steps taken, and a prediction of user labels handed out before: [id -> label]
tvars == <<t, i, held>>

Init == /\ t \in 1..Len(Traces)
        /\ i = 0
        /\ PartitionInit(ToSet(Traces[t].ids))
        /\ held = EmptyF

Pairs(S) == {<<k, k>> : k \in S}

(* what the views must show in the state after the operation *)
PartitionClauses(s) ==
    LET o == s.o IN
       C(Lists(o.lab, Pairs(Points("L")')), "P01.labeled_view")
    \cup C(Lists(o.inf, Pairs(Points("I")')), "P01.inferred_view")
    \cup C(Lists(o.unk, Pairs(Points("U")')), "P01.unknown_view")
    \cup C(Lists(o.unl, Pairs(Points("I")' \cup Points("U")')), "P01.unlabeled_view")
    \cup C(Lists(o.all, Pairs(ids)), "P01.whole")
    \cup C(o.sizes = <<Cardinality(Points("L")'), Cardinality(Points("I")'), Cardinality(Points("U")'),
                       Cardinality(Points("I")' \cup Points("U")'), Cardinality(ids)>>, "P01.sizes")

ReadClauses(s) ==
    CASE s.op = "LK" ->    \* lookup of a sequence of indexes: the points, in that order
            C(s.r = [j \in 1..Len(s.b) |-> <<s.b[j], s.b[j]>>], "P01.lookup")
      [] s.op = "SM" ->    \* sample of a view: as many of its points as asked for (99: all), none twice
            LET S == CASE s.y[1] = 0 -> ids [] s.y[1] = 1 -> Points("L") [] s.y[1] = 2 -> Points("I")
                       [] s.y[1] = 3 -> Points("U") [] OTHER -> Points("I") \cup Points("U") IN
              C(ToSet(s.r) \subseteq Pairs(S), "P01.sample_members")
         \cup C(Distinct(s.r), "P01.sample_repeats")
         \cup C(Len(s.r) = IF s.b[1] <= Cardinality(S) THEN s.b[1] ELSE Cardinality(S), "P01.sample_size")
      [] OTHER -> {}

LabelClauses(s) ==
    LET o == s.o IN
       C(Lists(o.ts, {<<k, lab'[k]>> : k \in DOMAIN lab'}), "P02.training_set")
    \cup C(Lists(o.tsp, {<<k, plab'[k]>> : k \in DOMAIN plab'}), "P02.training_set_partial")
    \cup C(Lists(o.ls, {<<k, lab'[k], plab'[k]>> : k \in DOMAIN lab'}), "P02.labeled_set")
    \cup C(Lists(o.lts, {<<k, last'[k].y>> : k \in DOMAIN last'}), "P02.last_training_set")
    \cup C(/\ Len(o.ltsp) = Cardinality(DOMAIN last')
           /\ {x[1] : x \in ToSet(o.ltsp)} = DOMAIN last'
           /\ \A x \in ToSet(o.ltsp) : x[1] \in DOMAIN last' =>
                 \/ x[2] = last'[x[1]].p
                 \/ x[1] \in DOMAIN relab' /\ x[2] \in relab'[x[1]], "P02.last_training_set_partial")

(* Labels predicted for the whole dataset, when asked for and at any later time *)
Predicted(s) == [k \in ids |-> IF part[k] = "L" THEN lab[k] ELSE Assign(s.b, s.y)[k]]
PredictionClauses(s) ==
    IF s.op = "PU" THEN
         C(s.err = 0, "P29.raised")
    \cup C(s.err = 0 => Lists(s.r, {<<k, Predicted(s)[k]>> : k \in ids}), "P29.labels")
    ELSE C(held = EmptyF \/ Lists(s.o.held, {<<k, held[k]>> : k \in ids}), "P29.later")

Clauses(s) ==
    LET ok    == Accepted(s)
        views == PartitionClauses(s)
        labs  == LabelClauses(s)
        moved == views \cup labs
        after == moved \cup ReadClauses(s)
    IN   after \cup PredictionClauses(s)
    \cup (IF s.op \in {"ML", "MI", "MU"}
          THEN C(ok <=> s.err = 0, IF ok THEN "P03.acceptable_move_refused" ELSE "P03.wrong_move_accepted")
               \cup C(~ok => moved = {}, "P03.refused_move_changed_something")
          ELSE C(s.err = 0, "P01.raised"))
    \cup C(s.op = "CL" => s.o.order = SetToSortSeq(ids, LAMBDA a, b : a < b), "P04.order")
    \cup C((s.op = "CL" \/ reset) => after = {} /\ (ok <=> s.err = 0), "P04.after_reset")

(* A scenario which broke down: the recorder could not finish it *)
Step ==
    /\ i < Len(Traces[t].steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Traces[t].steps[i'] IN
          /\ Do(s)
          /\ held' = IF s.op = "PU" THEN Predicted(s) ELSE held
          /\ Report(t, i', Clauses(s))
Spec == Init /\ [][Step]_<<pvars, tvars>>
=============================================================================
