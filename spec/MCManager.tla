------------------------------ MODULE MCManager ------------------------------
(* P05. A plugin manager: which processes it has started and which of them live, over histories of
   requests, calls, crashes and shutdowns. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth, N, Sim
VARIABLES b, kind, alive, broken, started, hist, done
vars == <<b, kind, alive, broken, started, hist, done>>
R(S) == RandomElement(S)
P == 1..N
\* behaviours of plugins
Runs == {"good", "stubborn"}                                      \* initialise; a stubborn one ignores shutdown requests
FailsAfterStart == {"failInit", "exitAtStart", "hangInit", "badVersion"}
NeverStarts == {"notExec", "missing", "disabled", "absent"}
Behaviours == Runs \cup FailsAfterStart \cup NeverStarts
Likely == IF R(1..2) = 1 THEN "good" ELSE R(Behaviours)
Kinds == {"cli", "backend", "format"}
Init == /\ hist = <<>> /\ done = FALSE
        /\ alive = [p \in P |-> FALSE] /\ broken = [p \in P |-> FALSE] /\ started = [p \in P |-> 0]
        /\ IF Sim THEN b = [p \in P |-> Likely] /\ \E k \in {R(Kinds)} : kind = k
           ELSE kind \in Kinds /\ b \in {f \in [P -> Behaviours] : \A p \in P \ {1} : f[p] = "good"}
\* a request starts a plugin that does not run (or broke), and fails when it cannot be started
Get(p) == IF alive[p] /\ ~broken[p] THEN [ok |-> TRUE, alive |-> alive, started |-> started, broken |-> broken]
          ELSE IF b[p] \in Runs THEN [ok |-> TRUE, alive |-> [alive EXCEPT ![p] = TRUE], started |-> [started EXCEPT ![p] = @ + 1], broken |-> [broken EXCEPT ![p] = FALSE]]
          ELSE [ok |-> FALSE, alive |-> [alive EXCEPT ![p] = FALSE], started |-> IF b[p] \in FailsAfterStart THEN [started EXCEPT ![p] = @ + 1] ELSE started, broken |-> broken]
Note(op, p, ok, a, s, br) == /\ alive' = a /\ started' = s /\ broken' = br
                             /\ hist' = Append(hist, [op |-> op, p |-> p, ok |-> ok, alive |-> a, started |-> s])
\* what a running plugin can be made to do: answer, die in a call, be killed, close its output (and live on)
Step == \E op \in (IF Sim THEN {R({"get", "get", "by", "call", "crash", "kill", "close", "shutdown", "all"})} ELSE {"get", "by", "call", "crash", "kill", "close", "shutdown", "all"}), p \in (IF Sim THEN {R(P)} ELSE P) :
        CASE op \in {"get", "by"} -> LET g == Get(p) IN Note(op, p, g.ok, g.alive, g.started, g.broken)
          [] op = "call" -> LET g == Get(p) IN Note(op, p, g.ok, g.alive, g.started, g.broken)
          [] op = "crash" -> LET g == Get(p) IN Note(op, p, FALSE, [g.alive EXCEPT ![p] = FALSE], g.started, g.broken)
          [] op = "close" -> LET g == Get(p) IN Note(op, p, FALSE, g.alive, g.started, IF g.ok THEN [g.broken EXCEPT ![p] = TRUE] ELSE g.broken)
          [] op = "kill" -> Note(op, p, TRUE, [alive EXCEPT ![p] = FALSE], started, [broken EXCEPT ![p] = FALSE])
          [] op = "shutdown" -> Note(op, p, TRUE, [alive EXCEPT ![p] = FALSE], started, [broken EXCEPT ![p] = FALSE])
          [] OTHER -> Note(op, p, TRUE, [q \in P |-> FALSE], started, [q \in P |-> FALSE])
Emit == CSVWrite("%1$s", <<ToJson([b |-> b, kind |-> kind, hist |-> hist, started |-> started])>>, IOEnv.OUT)
Next == \/ Len(hist) < Depth /\ Step /\ UNCHANGED <<b, kind, done>>
        \/ Len(hist) = Depth /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED <<b, kind, alive, broken, started, hist>>
Spec == Init /\ [][Next]_vars
NoneUnasked == \A p \in P : b[p] \in NeverStarts => started[p] = 0 /\ ~alive[p]
Reused == \A i \in 2..Len(hist) : \A p \in P : hist[i].op \in {"get", "by", "call"} /\ hist[i - 1].op \in {"get", "by", "call"} /\ hist[i - 1].ok /\ hist[i].p = p /\ hist[i - 1].p = p => hist[i].ok /\ hist[i].started = hist[i - 1].started
Answers == \A i \in DOMAIN hist : hist[i].op \in {"get", "by"} /\ hist[i].ok => hist[i].alive[hist[i].p]
=============================================================================
