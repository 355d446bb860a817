------------------------------- MODULE ArgsMC -------------------------------
EXTENDS Args, Json
CONSTANTS MaxH, Depth
VARIABLES g
vars == <<setting, g>>
Values == {Num(h) : h \in -2..MaxH} \cup {Inf, None}
Init == ArgsInit /\ g = <<>>
Next == UNCHANGED g /\ \E v \in Values : Set(v)
SettingStaysPositive == setting > 0
SettingMovesToAdmitted == [][\A v \in Values : Set(v) => (setting' # setting => Admits("positive", v))]_vars
(* how the kinds are related *)
ASSUME \A v \in Values : /\ Admits("posint", v) => \A k \in Kinds \ {"unit"} : Admits(k, v)
                         /\ Admits("positive", v) => Admits("non_negative", v)
                         /\ Admits("natural", v) => Admits("non_negative", v)
                         /\ v.k = "num" /\ v.h < 0 => \A k \in Kinds : ~Admits(k, v)
                         /\ v = None => \A k \in Kinds : Admits(k, v) <=> k \in {"posint_or_none", "positive_or_none"}
                         /\ v = Inf => \A k \in Kinds : Admits(k, v) <=> k = "natural_or_inf"
ASSUME \A n \in DOMAIN Target : \A p \in DOMAIN Target[n] : Target[n][p] \in Kinds
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
D(k) == TLCEval(R(1..k))
(* mostly admitted values, so that a configuration fails because of a single one *)
RandValue(kind) == TLCEval(LET good == {v \in Values : Admits(kind, v)} IN IF D(3) > 1 THEN R(good) ELSE R(IF kind = "unit" THEN Values \ {None} ELSE Values))
RandArgs(n) == LET ps == SetToSeq(DOMAIN Target[n])
                   k == D(Len(ps))
                   chosen == TLCEval(SetToSeq(TLCEval(R({s \in SUBSET (1..Len(ps)) : Cardinality(s) = k}))))
               IN [j \in 1..k |-> TLCEval(<<ps[chosen[j]], RandValue(Target[n][ps[chosen[j]]])>>)]
RandOp == LET d == D(12) IN
    CASE d \in 1..7 -> LET n == TLCEval(R(DOMAIN Target)) IN [op |-> "make", what |-> n, args |-> TLCEval(RandArgs(n)), m |-> 0, n |-> 0]
      [] d \in 8..9 -> LET c == TLCEval(R(DOMAIN Choice))
                           name == TLCEval(IF D(2) = 1 THEN R(Choice[c]) ELSE R(Names))
                           more == TLCEval(IF c = "score" /\ D(2) = 1 THEN <<R(Choice[c]), R(Names)>> ELSE <<>>)
                       IN [op |-> "choose", what |-> c, args |-> <<name>> \o more, m |-> 0, n |-> 0]
      [] d = 10 -> LET m == D(3) IN [op |-> "fit", what |-> TLCEval(R(Fits)), args |-> <<>>, m |-> m, n |-> TLCEval(IF D(2) = 1 THEN m ELSE D(4) - 1)]
      [] d = 11 -> [op |-> "set", what |-> "penalty", args |-> <<TLCEval(RandValue("positive"))>>, m |-> 0, n |-> 0]
      [] OTHER -> [op |-> "possible", what |-> TLCEval(R({"brute_force", "greedy"})), args |-> <<D(2), D(3)>>, m |-> D(4), n |-> 0]
SimNext == UNCHANGED setting /\ g' = Append(g, TLCEval(RandOp))
SimExport == Len(g) = Depth => PrintT("SCRIPT " \o ToJson([ops |-> g]))
=============================================================================
