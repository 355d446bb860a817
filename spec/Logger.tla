------------------------------- MODULE Logger -------------------------------
(* The log of metrics: a number or a list of numbers under each name; ages of dictionaries handed out.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
VARIABLES log,     \* [names -> [kind |-> "one" | "list", v |-> sequence of numbers]]
          held     \* dictionaries handed out, [stale |-> whether flushed since, d |-> what it was when last touched by the log]
lvars == <<log, held>>
LoggerInit == log = <<>> /\ held = <<>>
One(v) == [kind |-> "one", v |-> <<v>>]
Options == {"overwrite", "sum", "append"}
(* adding to a list, and appending to what is no list, are left open *)
Defined(l, key, option) == option \in Options /\ (key \in DOMAIN l => CASE option = "sum" -> l[key].kind = "one"
                                                                        [] option = "append" -> l[key].kind = "list"
                                                                        [] OTHER -> TRUE)
Put(l, key, v, option) ==
    LET new == CASE option = "overwrite" -> One(v)
                 [] option = "sum"       -> IF key \in DOMAIN l THEN One(l[key].v[1] + v) ELSE One(v)
                 [] option = "append"    -> IF key \in DOMAIN l THEN [l[key] EXCEPT !.v = Append(@, v)] ELSE [kind |-> "list", v |-> <<v>>]
    IN (key :> new) @@ l
(* several metrics are merged one by one *)
RECURSIVE PutAll(_, _, _)
PutAll(l, kvs, option) == IF kvs = <<>> THEN l ELSE PutAll(Put(l, kvs[1][1], kvs[1][2], option), Tail(kvs), option)
Touch(l) == [k \in 1..Len(held) |-> IF held[k].stale THEN held[k] ELSE [held[k] EXCEPT !.d = l]]
LogAll(kvs, option) == log' = PutAll(log, kvs, option) /\ held' = Touch(log')
Flush == log' = <<>> /\ held' = [k \in 1..Len(held) |-> [held[k] EXCEPT !.stale = TRUE]]
Hold == held' = Append(held, [stale |-> FALSE, d |-> log]) /\ UNCHANGED log
=============================================================================
