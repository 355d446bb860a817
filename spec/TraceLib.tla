------------------------------ MODULE TraceLib ------------------------------
(* Shared by the trace specifications: reading traces, and total verdicts. A verdict is a set of names of failing   *)
(* clauses, each starting with the property it belongs to; every step of every trace gets one.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

(* a clause *)
C(holds, name) == IF holds THEN {} ELSE {name}
Report(t, i, bad) == IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([t |-> t, i |-> i, bad |-> SetToSeq(bad)]))

Distinct(s) == Cardinality(ToSet(s)) = Len(s)
(* the sequences have the same elements, as often *)
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) \cup ToSet(b) :
                    Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
(* s lists every element of S once *)
Lists(s, S) == Len(s) = Cardinality(S) /\ ToSet(s) = S
=============================================================================
