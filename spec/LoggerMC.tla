------------------------------ MODULE LoggerMC ------------------------------
EXTENDS Logger, Json
CONSTANTS MaxV, MaxLen, MaxHeld, Depth
VARIABLES g
vars == <<log, held, g>>
Keys == {"a", "b"}
Init == LoggerInit /\ g = <<>>
Next == /\ UNCHANGED g
        /\ \/ \E key \in Keys : \E v \in 0..MaxV : \E o \in Options : Defined(log, key, o) /\ LogAll(<<<<key, v>>>>, o)
           \/ Flush
           \/ Len(held) < MaxHeld /\ Hold
Bound == \A k \in DOMAIN log : Len(log[k].v) <= MaxLen /\ \A j \in 1..Len(log[k].v) : log[k].v[j] <= 2 * MaxV
OneIsOne == \A k \in DOMAIN log : log[k].kind = "one" => Len(log[k].v) = 1
FreshShowTheLog == \A k \in 1..Len(held) : ~held[k].stale => held[k].d = log
StaleNeverChange == [][\A k \in 1..Len(held) : held[k].stale => held'[k] = held[k]]_vars
OthersUnaffected == [][Cardinality({k \in DOMAIN log : k \in DOMAIN log' /\ log'[k] # log[k]}) <= 1]_vars
----------------------------------------------------------------------------
R(S) == RandomElement(IF Len(g) >= 0 THEN S ELSE {})
D(k) == TLCEval(R(1..k))
SimKeys == {"a", "b", "c"}
RandOp == LET d == D(20) IN
    CASE d = 1 -> [op |-> "flush", kvs |-> <<>>, o |-> ""]
      [] d \in 2..3 -> [op |-> "hold", kvs |-> <<>>, o |-> ""]
      [] d = 4 -> [op |-> "log", kvs |-> TLCEval(<<<<R(SimKeys), D(9)>>>>), o |-> TLCEval(R({"add", "", "overwrite ", "max", "sums", "list"}))]
      [] d \in 5..7 -> [op |-> "logs", kvs |-> TLCEval(LET m == D(3) IN [j \in 1..m |-> TLCEval(<<<<"a", "b", "c">>[j], D(9) - 1>>)]), o |-> TLCEval(R(Options))]
      [] d = 8 -> [op |-> "timed", kvs |-> TLCEval(<<<<R({"fit_time", "other_time"}), 0>>>>), o |-> TLCEval(R(Options))]
      [] OTHER -> LET key == TLCEval(R(SimKeys)) IN
                  [op |-> "log", kvs |-> TLCEval(<<<<key, D(9) - 1>>>>),
                   o |-> TLCEval(IF D(6) = 1 THEN R(Options) ELSE IF key = "a" THEN "append" ELSE IF key = "b" THEN "sum" ELSE "overwrite")]
SimNext == /\ UNCHANGED <<log, held>> /\ g' = Append(g, TLCEval(RandOp))
SimExport == Len(g) = Depth => PrintT("SCRIPT " \o ToJson([ops |-> g]))
=============================================================================
