----------------------------- MODULE ExploreMC -----------------------------
(* Exhaustive exploration of Explore for small pools, and generation of scripts. A script fixes a configuration and  *)
(* the batches shown to the user in each run, whoever chooses them; the real code decides who is asked and when.     *)
EXTENDS Explore, Json
CONSTANTS MaxN, MaxBatch, Parts, SimN, MaxRuns
VARIABLES c,      \* the configuration
          batches,\* batches of this run
          runs    \* finished runs: sequence of [take, batches]; take = -1 for a run read to its end
vars == <<evars, c, batches, runs>>

Cbs0 == <<>>
Cbs1 == <<<<<< <<"a", 1>> >>, << <<"a", 2>> >>, << <<"a", 3>> >>, << <<"a", 4>> >>>>>>
Cbs2 == <<<<<< <<"a", 1>> >>, <<>>, << <<"a", 5>> >>>>, <<<<>>, << <<"a", 2>>, <<"b", 1>> >>, << <<"a", 3>> >>>>>>
NoNoise == [on |-> 0, skip |-> 0, pct |-> 0]
ConjOf(p) == IF \A j \in 1..Len(p) : p[j] = 1 THEN 1 ELSE 0
Truths(n) == LET P == [1..Parts -> {0, 1}] IN {[k \in 1..n |-> [y |-> ConjOf(f[k]), p |-> f[k]]] : f \in [1..n -> P]}

Configs == UNION {[truth : Truths(n), samp : {0, 1}, skip : {1, 2, 3}, maxit : {-1, 0, 1, 2}, thr : {<<>>, <<"a", 2>>, <<"lm", 20>>}, crit : {<<>>, <<2>>},
                   full : {0}, noise : {NoNoise, [on |-> 1, skip |-> 0, pct |-> 100]}, cbs : {Cbs0, Cbs1, Cbs2}, lm : {<<>>, <<2>>}] : n \in 1..MaxN}

Seqs(S) == {s \in UNION {[1..m -> S] : m \in 1..MaxBatch} : Cardinality(ToSet(s)) = Len(s)}

Init == c \in Configs /\ RunInit /\ batches = <<>> /\ runs = <<>>
Next == /\ ~Stopped(c)
        /\ \E b \in Seqs(Points(c) \ labeled) : \E l \in LabelChoices(c, b) :
              Iterate(c, b, l) /\ batches' = Append(batches, b)
        /\ UNCHANGED <<c, runs>>
View == <<evars, c>>
(* With fairness every run ends *)
FairSpec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>Stopped(c)

----------------------------------------------------------------------------
LabelsOfLabeled == DOMAIN known = labeled
PhaseForward == [][Exploring(c, known) => Exploring(c, known')]_vars
TrainedWhenExploring == Exploring(c, known) /\ iters > 0 => fits > 0
NeverTrainedBefore == ~Exploring(c, known) => fits = 0
LimitKept == c.maxit >= 0 => iters <= c.maxit + 1
TruthKnown == c.noise.on = 0 => \A x \in labeled : known[x] = c.truth[x]
LastPointStops == labeled = Points(c) => Stopped(c)
ConjunctionKept == \A x \in labeled : known[x].y = ConjOf(known[x].p)
FinalHasCallbacks == (Stopped(c) /\ iters > 0 /\ "labeled" \in StopReason(c, iters, shown, labeled)) => OfCallbacks(c, iters) \subseteq shown

----------------------------------------------------------------------------
(* Simulation *)
Salt == Len(batches) + Len(runs)
R(S) == RandomElement(IF Salt >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
D(k) == TLCEval(R(1..k))
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
RandPart(x) == TLCEval([j \in 1..x |-> IF D(10) <= 7 THEN 1 ELSE 0])
(* mostly negative, mostly positive or mixed pools, so that initial sampling may take long or never end *)
RandTruth(n, parts) ==
    LET mode == D(4) IN
    TLCEval([k \in 1..n |->
        LET d == D(6) IN
        LET p == IF mode = 1 /\ d <= 5 THEN TLCEval([j \in 1..parts |-> 0])
                 ELSE IF mode = 2 /\ d <= 5 THEN TLCEval([j \in 1..parts |-> 1])
                 ELSE TLCEval(RandPart(parts))
        IN [y |-> ConjOf(p), p |-> p]])
RandReports(n, j) == TLCEval([i \in 1..n |-> LET d == D(5) IN
    CASE d = 1 -> <<>> [] d = 2 -> << <<"a", D(9) - 1>> >> [] d = 3 -> << <<"a", D(9)>>, <<"b", j>> >> [] d = 4 -> << <<"b", D(4) - 1>> >> [] OTHER -> << <<"x", i>> >>])
RandConfig ==
    LET n == TLCEval(R(SimN))
        parts == IF D(2) = 1 THEN 1 ELSE TLCEval(R({2, 3}))
        truth == TLCEval(RandTruth(n, parts))
        ncb == TLCEval(Pick(<<0, 1, 2, 2>>))
    IN [truth |-> truth,
        samp  |-> IF D(4) = 1 THEN 0 ELSE 1,
        skip  |-> TLCEval(Pick(<<1, 1, 2, 3, 4>>)),
        maxit |-> IF D(2) = 1 THEN -1 ELSE TLCEval(R(0..n)),
        thr   |-> IF D(3) > 1 THEN <<>> ELSE TLCEval(Pick(<< <<"a", 3>>, <<"a", 6>>, <<"a", 9>>, <<"b", 3>>, <<"b", 2>>, <<"lm", 40>>, <<"lm", 30>>, <<"a", 0>>, <<"b", 0>> >>)),
        crit  |-> IF D(6) = 1 THEN <<TLCEval(R(0..n))>> ELSE <<>>,
        full  |-> IF D(8) = 1 THEN TLCEval(R(1..n)) ELSE 0,
        noise |-> IF D(5) <= 2 THEN [on |-> 1, skip |-> TLCEval(Pick(<<0, 0, 1, 2, 3>>)), pct |-> TLCEval(Pick(<<0, 30, 100, 100, 100>>))] ELSE NoNoise,
        cbs   |-> TLCEval([j \in 1..ncb |-> TLCEval(RandReports(n + 1, j))]),
        lm    |-> IF D(2) = 1 THEN <<>> ELSE RandSeq(1..(n + 1), TLCEval(R(1..3)))]
RandBatch == RandSeq(Points(c) \ labeled, TLCEval(Pick(<<1, 1, 1, 2, 3>>)))
SimInit == c = <<>> /\ RunInit /\ batches = <<>> /\ runs = <<>>
SimNext ==
    IF c = <<>> THEN c' = TLCEval(RandConfig) /\ UNCHANGED <<evars, batches, runs>>
    ELSE IF Stopped(c) \/ D(12) = 1
    THEN \* the run is over, or its reader loses interest
         /\ runs' = Append(runs, [take |-> IF Stopped(c) THEN -1 ELSE iters, batches |-> batches])
         /\ batches' = <<>> /\ StartRun /\ UNCHANGED c
    ELSE \E b \in {TLCEval(RandBatch)} : \E l \in {TLCEval(R(LabelChoices(c, b)))} :
         Iterate(c, b, l) /\ batches' = Append(batches, b) /\ UNCHANGED <<c, runs>>
SimExport == (c # <<>> /\ Len(runs) = MaxRuns /\ batches = <<>>) => PrintT("SCRIPT " \o ToJson([c |-> c, runs |-> runs]))
SimBound == Len(runs) < MaxRuns
=============================================================================
