------------------------------- MODULE MCStore -------------------------------
(* P04. The store as the file system sees it: a name that refers to a file, files written piece by
   piece, processes that may die at any step. Save writes a file of its own and moves it over the name;
   Load opens what the name refers to and reads it piece by piece. The invariants say that this is an
   atomic store. Mode "sched" writes out schedules of processes for the real code to follow. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Mode, Cfg, Steps, Sim
VARIABLES name, files, pc, fd, got, dead, sched, done
vars == <<name, files, pc, fd, got, dead, sched, done>>
R(S) == RandomElement(S)
Ops == CASE Cfg = 1 -> <<"save">> [] Cfg = 2 -> <<"save", "load">> [] Cfg = 3 -> <<"save", "save", "load">>
         [] Cfg = 4 -> <<"save", "load", "load">> [] Cfg = 5 -> <<"save", "save", "save", "load">> [] OTHER -> <<"save", "save", "load", "load">>
Pieces == 3
P == 1..Len(Ops)
Whole(v) == [k \in 1..Pieces |-> v]
None == 0
Init == /\ \E old \in {TRUE, FALSE} : name = (IF old THEN 1 ELSE None) /\ files = (IF old THEN <<Whole(0)>> ELSE <<>>)
        /\ pc = [p \in P |-> 0] /\ fd = [p \in P |-> None] /\ got = [p \in P |-> <<>>] /\ dead = {} /\ sched = <<>> /\ done = FALSE
Live(p) == p \notin dead
\* ---- the protocol
Save(p) ==
    CASE pc[p] = 0 -> files' = Append(files, <<>>) /\ fd' = [fd EXCEPT ![p] = Len(files) + 1] /\ pc' = [pc EXCEPT ![p] = 1] /\ UNCHANGED <<name, got>>
      [] pc[p] \in 1..Pieces -> files' = [files EXCEPT ![fd[p]] = Append(@, p)] /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<name, fd, got>>
      [] pc[p] = Pieces + 1 -> name' = fd[p] /\ pc' = [pc EXCEPT ![p] = 99] /\ UNCHANGED <<files, fd, got>>
Load(p) ==
    CASE pc[p] = 0 -> fd' = [fd EXCEPT ![p] = name] /\ pc' = [pc EXCEPT ![p] = IF name = None THEN 99 ELSE 1] /\ UNCHANGED <<name, files, got>>
      [] pc[p] \in 1..(Pieces + 1) ->
           IF Len(got[p]) < Len(files[fd[p]]) THEN got' = [got EXCEPT ![p] = Append(@, files[fd[p]][Len(@) + 1])] /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<name, files, fd>>
           ELSE pc' = [pc EXCEPT ![p] = 99] /\ UNCHANGED <<name, files, fd, got>>
Run == /\ Mode = "model" /\ \E p \in P : Live(p) /\ pc[p] # 99 /\ (IF Ops[p] = "save" THEN Save(p) ELSE Load(p))
       /\ UNCHANGED <<dead, sched, done>>
Die == /\ Mode = "model" /\ \E p \in P : Live(p) /\ pc[p] # 99 /\ dead' = dead \cup {p} /\ UNCHANGED <<name, files, pc, fd, got, sched, done>>
\* what the name refers to is whole, and so is what a finished load returns
Complete == name # None => \E v \in 0..Len(Ops) : files[name] = Whole(v)
Reads == \A p \in P : Ops[p] = "load" /\ pc[p] = 99 /\ fd[p] # None => \E v \in 0..Len(Ops) : got[p] = Whole(v)
NotLost == [][name # None => name' # None]_vars
\* ---- schedules: which process takes the next step, and whether one dies at it ("half": after half of a write)
Turn == /\ Mode = "sched" /\ Len(sched) < Steps
        /\ \E p \in (IF P \ dead = {} THEN {} ELSE IF Sim THEN {R(P \ dead)} ELSE P \ dead), how \in (IF Sim THEN {IF R(1..12) = 1 THEN R({"kill", "half"}) ELSE "go"} ELSE {"go", "kill", "half"}) :
             /\ (how # "go" => Cardinality(dead) < (IF Sim THEN 2 ELSE 1) /\ (Cfg = 1 \/ Cardinality(dead) + 1 < Cardinality(P)))
             /\ sched' = Append(sched, [p |-> p, how |-> how]) /\ dead' = (IF how = "go" THEN dead ELSE dead \cup {p})
        /\ UNCHANGED <<name, files, pc, fd, got, done>>
Emit == /\ Mode = "sched" /\ (Len(sched) = Steps \/ P \ dead = {}) /\ ~done
        /\ CSVWrite("%1$s", <<ToJson([init |-> IF name = None THEN -1 ELSE 0, ops |-> Ops, sched |-> sched])>>, IOEnv.OUT)
        /\ done' = TRUE /\ UNCHANGED <<name, files, pc, fd, got, dead, sched>>
Next == Run \/ Die \/ Turn \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
