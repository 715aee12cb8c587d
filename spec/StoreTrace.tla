------------------------------ MODULE StoreTrace ------------------------------
(* P04. A recorded history of processes that save and load one registry file is accepted iff it is a
   behaviour of an atomic store: a save takes effect at one moment between its start and its end, a
   load returns the whole registry of that moment. A process that dies may or may not have taken effect. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json
Runs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, c, pend, res
vars == <<t, i, c, pend, res>>
\* c: version stored (-1: none yet); pend: operations started, not in effect yet; res: result of those in effect
Init == t \in 1..Len(Runs) /\ i = 1 /\ c = Runs[t].init /\ pend = {} /\ res = <<>>
E == Runs[t].ev[i]
TakeEffect == \E x \in pend : /\ pend' = pend \ {x}
                              /\ c' = (IF x.op = "save" THEN x.v ELSE c)
                              /\ res' = [p \in DOMAIN res \cup {x.p} |-> IF p = x.p THEN (IF x.op = "save" THEN 0 ELSE c) ELSE res[p]]
                              /\ UNCHANGED <<t, i>>
Consume == /\ i <= Len(Runs[t].ev)
           /\ CASE E.e = "call" -> pend' = pend \cup {[p |-> E.p, op |-> E.op, v |-> E.v]} /\ UNCHANGED <<c, res>>
                [] E.e = "ret" -> E.p \in DOMAIN res /\ E.v = res[E.p] /\ UNCHANGED <<c, pend, res>>
                [] OTHER -> pend' = {x \in pend : x.p # E.p} /\ UNCHANGED <<c, res>>
           /\ i' = i + 1 /\ UNCHANGED t
           /\ (i = Len(Runs[t].ev) \/ IOEnv.ALL = "1") => CSVWrite("%1$s", <<ToString(t) \o " " \o ToString(i + 1)>>, IOEnv.OUT)
Next == TakeEffect \/ Consume
Spec == Init /\ [][Next]_vars
=============================================================================
