---------------------------- MODULE PartitionMC ----------------------------
(* Exhaustive exploration of Partition for a few points, and generation of operation scripts.                       *)
EXTENDS Partition, Json, Randomization
CONSTANTS N,          \* number of points in the exhaustive model
          MaxBatch,   \* longest batch in it
          SimN,       \* range of pool sizes in simulation
          Depth       \* length of a script
VARIABLE h            \* the operations so far

Labels == {0, 1}
PartialOf(k, y, n) == <<y, (k + y + n) % 2>>        \* any choice will do; it depends on point, label and time
Unknown == 99                                        \* an index which is not in the dataset

Batches(S) == UNION {[1..m -> S] : m \in 0..MaxBatch}
MkML(b, ys, n) == [op |-> "ML", b |-> b, y |-> ys, p |-> [i \in 1..Len(b) |-> PartialOf(b[i], ys[i], n)]]
Mk(name, b) == [op |-> name, b |-> b, y |-> <<>>, p |-> <<>>]
MkSP(n) == LET b == SetToSeq(Points("L")) IN
           [op |-> "SP", b |-> b, y |-> <<>>, p |-> [i \in 1..Len(b) |-> <<(b[i] + n) % 2, 1 - lab[b[i]]>>]]

Ops == UNION {{MkML(b, ys, 0) : ys \in [1..Len(b) -> Labels]} : b \in Batches(ids \cup {Unknown})}
       \cup {Mk(nm, b) : nm \in {"MI", "MU"}, b \in Batches(ids \cup {Unknown})}
       \cup {Mk("RI", <<>>), Mk("CL", <<>>)}
       \cup (IF Points("L") # {} THEN {MkSP(1)} ELSE {})

Init == PartitionInit(1..N) /\ h = <<>>
Next == \E o \in Ops : Do(o) /\ h' = Append(h, o)

(* Exhaustive run: the operations so far are not part of the state. Every transition prints one script reaching it. *)
View == <<part, lab, plab, last, reset>>
Export == PrintT("SCRIPT " \o ToJson([n |-> N, ops |-> h']))
Short == Len(h) < Depth

(* a refused move changes nothing *)
RefusedIsNop == [][\A o \in {h'[Len(h')]} : ~Accepted(o) => UNCHANGED pvars]_<<pvars, h>>
ResetIsInit == [][h'[Len(h')].op = "CL" => part' = [k \in ids |-> "U"] /\ lab' = EmptyF /\ last' = EmptyF]_<<pvars, h>>
LabelsLeave == [][\A k \in ids : (part[k] = "L" /\ part'[k] # "L") => k \notin DOMAIN lab' /\ k \notin DOMAIN plab']_<<pvars, h>>

----------------------------------------------------------------------------
(* Simulation: random scripts over larger pools, mostly of acceptable moves. Len(h) makes every draw depend on the   *)
(* state, so that TLC makes a new one each time.                                                                    *)
R(S) == RandomElement(IF Len(h) >= 0 THEN S ELSE {})
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o RandSeq(S \ {e}, k - 1)
RECURSIVE RandWord(_, _)
RandWord(S, k) == IF k = 0 THEN <<>> ELSE <<TLCEval(R(S))>> \o RandWord(S, k - 1)
SizeUpTo(n) == TLCEval(R(0..n))
Legal(nm) == CASE nm = "ML" -> Points("I") \cup Points("U")
               [] nm = "MI" -> Points("L") \cup Points("U")
               [] OTHER     -> Points("L") \cup Points("I")
Whole(nm) == CASE nm = "ML" -> (IF Len(h) % 2 = 0 THEN Points("U") ELSE Points("I") \cup Points("U")) [] nm = "MI" -> Points("U") [] OTHER -> Points("I")
RandBatch(nm) ==
    LET good == TLCEval(RandSeq(Legal(nm), TLCEval(R({1, 1, 2, 3, 4} \cup {Len(h) % 3}))))
        dice == TLCEval(R(1..10))
    IN CASE dice <= 6 -> good
         [] dice = 7  -> RandSeq(Whole(nm), Cardinality(ids))                           \* a whole view
         [] dice = 8  -> RandSeq(ids, SizeUpTo(3))                                     \* likely to name wrong points
         [] dice = 9  -> good \o <<TLCEval(R(ids \cup {Unknown}))>>                     \* wrong at the end
         [] OTHER     -> IF good = <<>> THEN <<Unknown>> ELSE good \o <<good[1]>>       \* repeated
RandOp ==
    LET nm == TLCEval(R({"ML", "ML2", "ML3", "MI", "MI2", "MU", "RI", "CL", "SP", "LK", "SM", "PU", "PU2"}))
        real == CASE nm \in {"ML2", "ML3"} -> "ML" [] nm = "MI2" -> "MI" [] nm = "PU2" -> "PU" [] OTHER -> nm
        b == TLCEval(RandBatch(real))
    IN CASE real = "ML" -> MkML(b, TLCEval(RandWord(Labels, Len(b))), Len(h))
         [] real \in {"MI", "MU"} -> Mk(real, b)
         [] real = "RI" -> Mk("RI", <<>>)
         [] real = "CL" -> IF TLCEval(R(1..3)) = 1 THEN Mk("CL", <<>>) ELSE Mk("MI", RandSeq(Legal("MI"), 2))
         [] real = "SP" -> MkSP(Len(h))
         [] real = "LK" -> Mk("LK", RandWord(ids, TLCEval(R(0..5))))                     \* lookups, with repetitions
         [] real = "SM" -> [Mk("SM", <<TLCEval(R(0..(Cardinality(ids) + 1)))>>) EXCEPT !.y = <<TLCEval(R(0..4))>>]
         [] OTHER       -> [Mk("PU", <<>>) EXCEPT !.b = SetToSeq(ids), !.y = TLCEval(RandWord(Labels, Cardinality(ids)))]
SimInit == \E n \in SimN : PartitionInit(1..n) /\ h = <<>>
SimNext == \E o \in {TLCEval(RandOp)} : Do(o) /\ h' = Append(h, o)
SimExport == Len(h) = Depth => PrintT("SCRIPT " \o ToJson([n |-> Cardinality(ids), ops |-> h]))
=============================================================================
