-------------------------------- MODULE Dsm --------------------------------
(* The dual space model: a polytope which knows the labels of some points, and a learner trained on the user's labels  *)
(* and on the known labels of the points it asked about. Labels are 0 and 2; 1 stands for unknown.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
VARIABLES label,    \* labels given by the user: [point -> label]
          inferred, \* inferred partition
          cache,    \* sequence of <<point, label>>: labels given to the learner by the polytope
          know,     \* what the polytope knows: [point -> 0, 1, 2]
          valid     \* is the polytope valid?
dvars == <<label, inferred, cache, know, valid>>

Labeled == DOMAIN label
AllPoints == DOMAIN know
Unlabeled == AllPoints \ Labeled
Unknown == Unlabeled \ inferred

DsmInit(n) == /\ label = <<>> /\ inferred = {} /\ cache = <<>>
              /\ know = [x \in 1..n |-> 1] /\ valid = TRUE

Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Confirmed(c, k) == SelectSeq(c, LAMBDA e : k[e[1]] = e[2])

(* labels are collected without training (before the learning phase) *)
Collect(b) == /\ label' = Merge(label, b)
              /\ inferred' = inferred \ DOMAIN b
              /\ UNCHANGED <<cache, know, valid>>
(* training on a new batch: k2, v2 and conflict are the polytope's answer, if it is asked *)
Train(b, k2, v2, conflict) ==
    /\ label' = Merge(label, b)
    /\ IF ~valid THEN inferred' = inferred \ DOMAIN b /\ UNCHANGED <<cache, know, valid>>
       ELSE /\ know' = k2 /\ valid' = v2
            /\ cache' = IF conflict THEN Confirmed(cache, k2) ELSE cache
            /\ inferred' = IF v2 THEN {x \in AllPoints \ DOMAIN label' : k2[x] # 1}
                           ELSE IF conflict THEN {} ELSE inferred \ DOMAIN b
(* what the learner is trained on *)
TrainingSet == [j \in 1..Cardinality(Labeled) |-> LET x == SetToSeq(Labeled)[j] IN <<x, label[x]>>] \o cache
(* the learner picks points the polytope knows: they are not shown to the user *)
PickKnown(p) == /\ valid /\ Unknown # {} /\ p # <<>> /\ \A x \in ToSet(p) : know[x] # 1
                /\ cache' = cache \o [j \in 1..Len(p) |-> <<p[j], know[p[j]]>>]
                /\ UNCHANGED <<label, inferred, know, valid>>
(* points that may be shown to the user *)
Askable(x) == x \in Unlabeled /\ (valid /\ Unknown # {} => know[x] = 1)
=============================================================================
