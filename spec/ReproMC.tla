------------------------------ MODULE ReproMC ------------------------------
(* Why resetting and seeding suffices: what a run leaves behind is abstracted to residues of the learner, the dataset, *)
(* the generator and the metric log; a run first replaces them all, so its history is a function of configuration and   *)
(* seed. Also generates scripts of runs and disturbances between them.                                               *)
EXTENDS Repro, Json
CONSTANTS Cfgs, Seeds, Learners, Depth,
          Forget      \* residues which a (faulty) reset does not replace: {} in the design
VARIABLES res,        \* [residue -> value]
          h           \* the script
vars == <<memo, res, h>>
Residues == {"learner", "dataset", "rng", "log", "class"}    \* class: defaults shared by the learners of a class, which each learner copies
Clean == [r \in Residues |-> 0]
Init == memo = <<>> /\ res = Clean /\ h = <<>>

AfterReset(s) == [r \in Residues |-> IF r \in Forget THEN res[r] ELSE IF r = "rng" THEN s ELSE 0]
Whole(c, s) == LET r == AfterReset(s) IN <<<<c, r["rng"], r["learner"]>>, <<c, r["dataset"], r["log"]>>>>
Run(c, s, take) ==
    LET hist == SubSeq(Whole(c, s), 1, take) IN
    /\ memo' = Learn(<<c, s>>, hist, take = 2, <<>>)
    /\ res' = [r \in Residues |-> 10 * c + s + take]
    /\ h' = Append(h, [k |-> "run", c |-> c, s |-> s, take |-> take])
Disturb(r) == res' = [res EXCEPT ![r] = 99] /\ UNCHANGED memo /\ h' = Append(h, [k |-> r])
Next == (\E c \in Cfgs, s \in Seeds, t \in 0..2 : Run(c, s, t)) \/ (\E r \in Residues : Disturb(r))
View == <<memo, res>>
Repeatable == [][\A c \in Cfgs, s \in Seeds, t \in 0..2 :
                   h' = Append(h, [k |-> "run", c |-> c, s |-> s, take |-> t]) => SameRun(<<c, s>>, SubSeq(Whole(c, s), 1, t), t = 2, <<>>)]_vars

----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(h) >= 0 THEN S ELSE {})
Pick(q) == q[R(1..Len(q))]
(* The first run is read to its end, and done again by the last operation *)
RandRun == LET m == TLCEval(IF Len(h) = 0 THEN 1 ELSE Pick(<<1, 1, 2>>)) IN
    [k |-> "run", c |-> TLCEval(R(Cfgs)), obj |-> TLCEval(R({0, 1, 2})), l |-> TLCEval(R(Learners)),
     s |-> TLCEval([j \in 1..m |-> TLCEval(R(IF j = 1 THEN Seeds ELSE Seeds \cup {7}))]),
     t |-> TLCEval([j \in 1..m |-> TLCEval(IF Len(h) = 0 THEN -1 ELSE Pick(<<-1, -1, -1, 1, 3>>))])]
RandOp == LET d == TLCEval(R(1..10)) IN
    IF Len(h) = Depth - 1 THEN [h[1] EXCEPT !.obj = TLCEval(R({0, h[1].obj}))]
    ELSE IF d <= 6 \/ Len(h) = 0 THEN RandRun
    ELSE [k |-> TLCEval(Pick(<<"learner", "rng", "log", "dataset", "sibling", "sibling">>)), c |-> TLCEval(R(Cfgs)), l |-> TLCEval(R(Learners)), obj |-> 0, s |-> <<TLCEval(R(1..50))>>, t |-> <<0>>]
SimInit == memo = <<>> /\ res = Clean /\ h = <<>>
SimNext == \E o \in {TLCEval(RandOp)} : h' = Append(h, o) /\ UNCHANGED <<memo, res>>
SimExport == Len(h) = Depth => PrintT("SCRIPT " \o ToJson([ops |-> h]))
=============================================================================
