------------------------------ MODULE MCClient ------------------------------
(* P02. Calls of a client against a plugin whose output is scripted line by line; poss is the set of
   line queues the client may be left with. *)
EXTENDS Plugin, Json, CSV, IOUtils
CONSTANTS Calls, Lines, Sim
VARIABLES calls, cur, poss, alive, done
vars == <<calls, cur, poss, alive, done>>
R(S) == RandomElement(S)
Ops == {"load_tensor", "load_model", "save_model", "save_tensor", "run", "build", "list_targets", "init_same", "init_minor", "init_major", "init_zero"}
n == Len(calls) + 1
Kinds(i) == Own \cup Loose \cup Notes \cup (IF i > 1 THEN Stale ELSE {})
NoCall == [op |-> "none", lines |-> <<>>]
HasOwn(ls, i) == \E j \in DOMAIN ls : IsOwn(ls[j], i)
Init == calls = <<>> /\ cur = NoCall /\ poss = {<<>>} /\ alive = TRUE /\ done = FALSE
Begin == /\ ~done /\ cur = NoCall /\ Len(calls) < Calls
         /\ \E op \in (IF Sim THEN {R(Ops)} ELSE {"load_tensor", "save_model"}) : cur' = [op |-> op, lines |-> <<>>]
         /\ UNCHANGED <<calls, poss, alive, done>>
\* the plugin writes one more line; cancels are only meaningful while the call waits
Line == /\ cur # NoCall /\ alive /\ Len(cur.lines) < Lines
        /\ \E k \in (IF Sim THEN {R(Kinds(n))} ELSE IF n = Calls /\ Calls > 1 THEN {"own"} ELSE Kinds(n)) :
             /\ (k \in {"cancel", "cancelQuiet"} => \A j \in DOMAIN cur.lines : cur.lines[j].k \notin Own \cup Loose)
             /\ \E of \in (IF k \in Stale THEN (IF Sim THEN {R(1..(n - 1))} ELSE {n - 1}) ELSE {n}) : cur' = [cur EXCEPT !.lines = Append(@, [k |-> k, of |-> of])]
        /\ UNCHANGED <<calls, poss, alive, done>>
\* the call ends: by an own response, or the plugin waits (timeout), exits, closes its output, or cuts a line short
Ends(ls) == IF Sim THEN (IF ls # <<>> /\ R(1..10) # 1 THEN {"wait"} ELSE {R({"wait", "exit", "close", "cutline", "drip", "deaf"})})
            ELSE IF n = Calls /\ Calls > 1 THEN {"wait"} ELSE IF ls = <<>> THEN {"wait", "exit", "close", "cutline", "drip", "deaf"} ELSE {"wait", "exit", "close", "cutline"}
Finish == /\ cur # NoCall
          /\ \E e \in (IF alive THEN Ends(cur.lines) ELSE {"gone"}) :
             LET own == HasOwn(cur.lines, n)
                 res == UNION {Scan(q \o cur.lines, n, cur.op) : q \in poss}
                 \* a call that is not answered may give up before it has seen every line
                 rest == UNION {LET a == q \o cur.lines IN {SubSeq(a, j, Len(a)) : j \in 1..(Len(a) + 1)} : q \in poss}
             IN
             /\ (e \in {"drip", "deaf"} => cur.lines = <<>>)
             /\ (~Sim /\ n = Calls /\ Calls > 1 /\ alive => Len(cur.lines) > 0)
             /\ calls' = Append(calls, [op |-> cur.op, lines |-> cur.lines, end |-> e, may |-> {x.r : x \in res}, own |-> own])
             /\ poss' = IF own THEN {x.q : x \in res} ELSE rest
             /\ alive' = (alive /\ e = "wait")
          /\ cur' = NoCall /\ UNCHANGED done
Emit == CSVWrite("%1$s", <<ToJson([k |-> "script", calls |-> calls])>>, IOEnv.OUT)
Stop == ~done /\ cur = NoCall /\ Len(calls) = Calls /\ Emit /\ done' = TRUE /\ UNCHANGED <<calls, cur, poss, alive>>
Next == Begin \/ Line \/ Finish \/ Stop
Spec == Init /\ [][Next]_vars
\* ---- the property, on the specification itself
NoLoose(ls) == \A j \in DOMAIN ls : ls[j].k \notin Loose
\* a call whose own result arrives, with nothing but protocol messages before it, gets it: whatever happened in earlier calls
LastCall == calls[Len(calls)]
Gets == Len(calls) > 0 /\ (\A j \in DOMAIN calls : NoLoose(calls[j].lines)) =>
        \A i \in DOMAIN calls : calls[i].own => LET f == CHOOSE f \in DOMAIN calls[i].lines : IsOwn(calls[i].lines[f], i) /\ \A g \in 1..(f - 1) : ~IsOwn(calls[i].lines[g], i)
                                               IN calls[i].may = {Outcome(calls[i].lines[f], calls[i].op)}
NeverOther == \A i \in DOMAIN calls : ~calls[i].own => calls[i].may = {"err"}
AfterError == Len(calls) > 1 /\ LastCall.own /\ LastCall.lines[1].k = "own" /\ (\A j \in 1..(Len(calls) - 1) : NoLoose(calls[j].lines)) => LastCall.may = {Outcome(LastCall.lines[1], LastCall.op)}
=============================================================================
