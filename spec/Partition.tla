----------------------------- MODULE Partition -----------------------------
(* A pool-based dataset whose points are labeled, inferred or unknown.                                              *)
(*                                                                                                                  *)
(* Points are named by their index; the data row given with index k is written k as well (drivers give each index   *)
(* its own row and translate rows back), so "a point stands beside its own row" reads index = row.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES ids,    \* the set of indexes of the dataset
          part,   \* [ids -> {"L", "I", "U"}]
          lab,    \* final label of each labeled point
          plab,   \* partial labels of each labeled point
          last,   \* the last accepted labeling batch, [index -> [y, p]]
          relab,  \* sets of partial labels given after the last labeling batch (they may or may not show in the last batch)
          reset   \* whether the dataset has been reset before
pvars == <<ids, part, lab, plab, last, relab, reset>>

EmptyF == <<>>          \* the function with empty domain

PartitionInit(S) ==
    /\ ids = S
    /\ part = [k \in S |-> "U"]
    /\ lab = EmptyF /\ plab = EmptyF /\ last = EmptyF /\ relab = EmptyF
    /\ reset = FALSE

Points(p) == {k \in ids : part[k] = p}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Restrict0(f, S) == [k \in S \cap DOMAIN f |-> f[k]]
Merge(f, g) == g @@ f
(* the function taking b[i] to s[i], for b without repetition *)
Assign(b, s) == [k \in ToSet(b) |-> s[CHOOSE i \in 1..Len(b) : b[i] = k]]

(* An operation is a record [op, b, y, p]: name, batch of indexes, final labels and partial labels of the batch.     *)
Accepted(o) ==
    CASE o.op = "ML" -> NoDup(o.b) /\ ToSet(o.b) \subseteq (Points("I") \cup Points("U"))
      [] o.op = "MI" -> NoDup(o.b) /\ ToSet(o.b) \subseteq (Points("L") \cup Points("U"))
      [] o.op = "MU" -> NoDup(o.b) /\ ToSet(o.b) \subseteq (Points("L") \cup Points("I"))
      [] OTHER       -> TRUE

MoveTo(b, p) == [k \in ids |-> IF k \in ToSet(b) THEN p ELSE part[k]]

MoveToLabeled(o) ==
    /\ part' = MoveTo(o.b, "L")
    /\ lab'  = Merge(lab, Assign(o.b, o.y))
    /\ plab' = Merge(plab, Assign(o.b, o.p))
    /\ last' = [k \in ToSet(o.b) |-> [y |-> Assign(o.b, o.y)[k], p |-> Assign(o.b, o.p)[k]]]
    /\ relab' = EmptyF
    /\ UNCHANGED <<ids, reset>>

MoveFromLabeled(o, p) ==
    /\ part' = MoveTo(o.b, p)
    /\ lab'  = Restrict0(lab, ids \ ToSet(o.b))
    /\ plab' = Restrict0(plab, ids \ ToSet(o.b))
    /\ UNCHANGED <<ids, last, relab, reset>>

RemoveInferred ==
    /\ part' = [k \in ids |-> IF part[k] = "I" THEN "U" ELSE part[k]]
    /\ UNCHANGED <<ids, lab, plab, last, relab, reset>>

Clear ==
    /\ part' = [k \in ids |-> "U"]
    /\ lab' = EmptyF /\ plab' = EmptyF /\ last' = EmptyF /\ relab' = EmptyF
    /\ reset' = TRUE
    /\ UNCHANGED ids

SetPartial(o) ==       \* o.b lists the labeled points in the order of the labeled set
    /\ plab'  = Assign(o.b, o.p)
    /\ relab' = [k \in ToSet(o.b) \cup DOMAIN relab |-> (IF k \in DOMAIN relab THEN relab[k] ELSE {})
                      \cup (IF k \in ToSet(o.b) THEN {Assign(o.b, o.p)[k]} ELSE {})]
    /\ UNCHANGED <<ids, part, lab, last, reset>>

(* The effect of any operation, accepted or refused. Reads (lookups, samples, predictions) change nothing.           *)
Do(o) ==
    IF ~Accepted(o) THEN UNCHANGED pvars
    ELSE CASE o.op = "ML" -> MoveToLabeled(o)
           [] o.op = "MI" -> MoveFromLabeled(o, "I")
           [] o.op = "MU" -> MoveFromLabeled(o, "U")
           [] o.op = "RI" -> RemoveInferred
           [] o.op = "CL" -> Clear
           [] o.op = "SP" -> SetPartial(o)
           [] OTHER       -> UNCHANGED pvars

----------------------------------------------------------------------------
(* Invariants of the design *)
TypeOK ==
    /\ part \in [ids -> {"L", "I", "U"}]
    /\ DOMAIN lab = Points("L") /\ DOMAIN plab = Points("L")
OnePartition == \A k \in ids : Cardinality({p \in {"L", "I", "U"} : k \in Points(p)}) = 1
LastIsOwn == \A k \in DOMAIN last : k \in ids
(* while the last batch is still labeled, its labels are those of the training set *)
LastAgrees == \A k \in DOMAIN last \cap DOMAIN lab : last[k].y = lab[k]
=============================================================================
