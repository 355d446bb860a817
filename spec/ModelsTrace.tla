---------------------------- MODULE ModelsTrace ----------------------------
(* Judges recorded histories of polytope models.                                                                    *)
(* A trace is [kind, subs, pool, steps]; a step [op, b, r, valid, pred, parts]: batch as sequence of [k, y] (pool      *)
(* point, labels per subspace), result (1 success, 0 failure, -1 refused), validity and predictions afterwards.      *)
EXTENDS Models, TraceLib
VARIABLES t, i, f,    \* the subspaces
          lost,       \* an outcome could not be told from what was observed
          cleared     \* the model has been reset before
vars == <<t, i, f, lost, cleared>>
Tr == Traces[t]
FreshAll == [j \in 1..Len(Tr.subs) |-> Fresh(Tr.subs[j].mode)]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ lost = FALSE /\ cleared = FALSE
        /\ f = [j \in 1..Len(Traces[t].subs) |-> Fresh(Traces[t].subs[j].mode)]

Part(b, j) == {<<Tr.pool[e.k][j], e.y[j]>> : e \in ToSet(b)}
(* next states: only valid subspaces are updated, and none if the model is invalid *)
Nexts(s) ==
    IF s.op = "clear" THEN {FreshAll}
    ELSE IF s.op = "fit" THEN {<<h>> : h \in Updates(FreshAll[1], Part(s.b, 1))}
    ELSE IF s.op = "copy" \/ ~AnyValid(f) THEN {f}
    ELSE LET U == [j \in 1..Len(f) |-> IF Valid(f[j]) THEN Updates(f[j], Part(s.b, j)) ELSE {f[j]}] IN
         {h \in [1..Len(f) -> UNION {U[j] : j \in 1..Len(f)}] : \A j \in 1..Len(f) : h[j] \in U[j]}
Result(s, h) == IF s.op \notin {"update", "fit"} THEN 1
                ELSE IF Tr.kind = "learner" THEN (IF AnyValid(h) THEN 1 ELSE -1)
                ELSE IF ~AnyValid(f) THEN -1
                ELSE IF \A j \in 1..Len(f) : Valid(f[j]) => Succeeds(f[j], h[j]) THEN 1 ELSE 0
Fits(s, h) == Result(s, h) = s.r /\ AnyValid(h) = (s.valid = 1)

Discrete == Len(Tr.subs) = 1 /\ ~Numeric(Tr.subs[1].mode)
Who(h) == IF Tr.kind = "fact" THEN "P17" ELSE IF Discrete THEN "P16"
          ELSE IF cleared \/ ~(h[1].vp = Fresh(h[1].mode).vp /\ h[1].vn = Fresh(h[1].mode).vn) THEN "P15" ELSE "P14"
Outcome == IF Tr.kind = "fact" THEN "P17" ELSE IF Discrete THEN "P16" ELSE "P15"

(* a learner's probabilities: those of the possible worlds for items, and none once a conflict was reported *)
LearnerPredict(h, x) ==
    IF h.mode = "categorical" THEN Predict(h, x)
    ELSE LET W == {A \in SUBSET (1..Len(x)) : PosItems(h.pos) \subseteq A /\ \A z \in h.neg : ~(Items(z) \subseteq A)} IN
         IF \A A \in W : Items(x) \subseteq A THEN {2} ELSE IF \A A \in W : ~(Items(x) \subseteq A) THEN {0} ELSE {0, 1, 2}
LearnerClauses(s, h) ==
    IF ~AnyValid(h) THEN {}
    ELSE LET pool == Tr.pool IN
          C(Len(s.pred) = Len(pool), "P16.prediction_missing")
     \cup C(\A k \in 1..Len(pool) : s.pred[k] \in LearnerPredict(h[1], pool[k][1]), "P16.prediction")
     \cup C(\A k \in 1..Len(pool) : s.pred[k] = 2 => s.label[k] = 2, "P16.label_of_known_positive")
     \cup C(\A k \in 1..Len(pool) : s.pred[k] = 0 => s.label[k] = 0, "P16.label_of_known_negative")

PredClauses(s, h) ==
    LET pool == Tr.pool IN
    IF Tr.kind = "learner" THEN LearnerClauses(s, h) ELSE
       C(Len(s.pred) = Len(pool), Who(h) \o ".prediction_missing")
    \cup (IF Tr.kind = "fact"
          THEN C(\A k \in 1..Len(pool) : s.pred[k] \in FactPredict(h, pool[k]), "P17.prediction")
               \cup C(\A k \in 1..Len(pool) : \A j \in 1..Len(h) : s.parts[k][j] \in (IF Valid(h[j]) THEN Predict(h[j], pool[k][j]) ELSE {1}),
                      "P17.partial_prediction")
          ELSE C(\A k \in 1..Len(pool) : s.pred[k] \in Predict(h[1], pool[k][1]), Who(h) \o ".prediction")
               \cup C(\A k \in 1..Len(pool) : <<pool[k][1]>> \in {<<x>> : x \in h[1].pos} /\ pool[k][1] \notin h[1].neg /\ Valid(h[1]) => s.pred[k] # 0, Who(h) \o ".own_positive")
               \cup C(\A k \in 1..Len(pool) : pool[k][1] \in h[1].neg /\ pool[k][1] \notin h[1].pos /\ Valid(h[1]) => s.pred[k] # 2, Who(h) \o ".own_negative"))

Step ==
    /\ i < Len(Tr.steps)
    /\ i' = i + 1 /\ UNCHANGED t
    /\ LET s == Tr.steps[i']
           all == Nexts(s)
           fit == {h \in all : Fits(s, h)}
           gone == s.op # "clear" /\ lost IN
       /\ cleared' = (cleared \/ s.op = "clear")
       /\ f' = IF fit # {} THEN CHOOSE h \in fit : TRUE ELSE CHOOSE h \in all : TRUE
       /\ lost' = (gone \/ fit = {} \/ Cardinality(fit) > 1)
       /\ Report(t, i', IF gone THEN {}
                        ELSE IF fit = {} THEN
                             LET h == CHOOSE h \in all : TRUE IN
                               C(\E x \in all : AnyValid(x) = (s.valid = 1), Outcome \o ".is_valid")
                          \cup C(\E x \in all : Result(s, x) = s.r, Outcome \o (IF Result(s, h) = -1 THEN ".not_refused" ELSE IF s.r = -1 THEN ".raised"
                                      ELSE IF s.r = 1 THEN ".conflict_not_noticed" ELSE ".false_conflict"))
                          \cup {Outcome \o ".outcome"}
                        ELSE IF Cardinality(fit) > 1 THEN {}
                        ELSE PredClauses(s, CHOOSE h \in fit : TRUE))
Spec == Init /\ [][Step]_vars
=============================================================================
