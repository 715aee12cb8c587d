------------------------------ MODULE MCLife ------------------------------
(* Random histories of one or several threads; every event carries what each handle of its thread must show afterwards.
   Mode "any": every kind of event.  Mode "round": a body over persistent parameters (slots 1..P) that the harness
   repeats, after which only the parameters remain.  Mode "all": all short histories over a fixed start. *)
EXTENDS Life, Json, CSV, IOUtils
CONSTANTS Threads, Depth, Mode, P, Focus
VARIABLES st, log, done
vars == <<st, log, done>>
R(X) == RandomElement(X)
Full(S) == {i \in Slots : Has(S, i)}
Ev(a, i, j, k, f, v) == [a |-> a, i |-> i, j |-> j, k |-> k, f |-> f, v |-> v]
E0(a, i) == Ev(a, i, 0, 0, "", <<0, 0>>)
\* slots an event may overwrite or release
Free == IF Mode = "round" THEN (P + 1)..H ELSE Slots
Do(S, e) ==
    CASE e.a = "leaf" -> Leaf(S, e.i, e.v, e.k = 1)
      [] e.a = "op" -> Apply(S, e.f, IF e.k = 0 THEN <<e.j>> ELSE <<e.j, e.k>>, e.i)
      [] e.a = "clone" -> Clone(S, e.j, e.i)
      [] e.a = "drop" -> Drop(S, e.i)
      [] e.a = "rg" -> SetRg(S, e.i, e.k = 1)
      [] e.a = "back" -> Backward(S, e.i)
      [] e.a = "zero" -> ZeroGrad(S, e.i)
      [] e.a = "grad" -> GradOf(S, e.j, e.i)
      [] e.a = "set" -> Assign(S, e.i, e.j)
      [] e.a = "step" -> Step(S, IF e.j = 0 THEN <<e.i>> ELSE <<e.i, e.j>>)
      [] e.a = "ozero" -> OptZero(S, IF e.j = 0 THEN <<e.i>> ELSE <<e.i, e.j>>)
      [] e.a = "enter" -> Enter(S)
      [] e.a = "leave" -> Leave(S, e.i)
Can(S, e) ==
    LET full(i) == i \in Slots /\ Has(S, i)
        step1(i) == full(i) /\ S.ten[S.h[i]].rg /\ ~Recorded(S, S.h[i])
    IN CASE e.a = "leaf" -> TRUE
         [] e.a = "op" -> full(e.j) /\ (e.k = 0 \/ full(e.k))
                          /\ LET x == Val(S, e.j) y == IF e.k = 0 THEN x ELSE Val(S, e.k)
                             IN (e.f = "cube" => AbsI(x[1]) <= 50 /\ AbsI(x[2]) <= 50)
                                /\ (e.f \in {"mul", "fma"} => AbsI(x[1]) <= 1000 /\ AbsI(x[2]) <= 1000 /\ AbsI(y[1]) <= 1000 /\ AbsI(y[2]) <= 1000)
                                /\ Small(Fn(e.f, x, y))
         [] e.a \in {"clone", "grad"} -> full(e.j) /\ (e.a = "clone" => e.i # e.j)
         [] e.a \in {"drop", "zero"} -> full(e.i)
         \* (the flag of a recorded result is left alone: whether it cuts what was recorded before is not specified)
         [] e.a = "rg" -> full(e.i) /\ ~Recorded(S, S.h[e.i])
         [] e.a = "back" -> /\ full(e.i)
                            /\ LET G == Grads(S, e.i) IN \A t \in 1..Len(S.ten) : G.m[t] # <<>> => Small(G.m[t])
         [] e.a = "set" -> full(e.i) /\ full(e.j) /\ ~Recorded(S, S.h[e.i])
         [] e.a = "step" -> /\ step1(e.i) /\ (e.j = 0 \/ (step1(e.j) /\ S.h[e.i] # S.h[e.j]))
                            /\ LET r == Do(S, e).s IN \A i \in Slots : Has(r, i) => Small(Val(r, i))
         [] e.a = "ozero" -> full(e.i) /\ (e.j = 0 \/ full(e.j))
         [] e.a = "enter" -> Len(S.stk) < 3
         [] e.a = "leave" -> e.i \in 1..Len(S.stk)
         [] OTHER -> FALSE
Grid == {<<a, b>> : a \in {-3, -2, -1, 1, 2, 4}, b \in {-2, 1, 3}}
KindsAny == <<"leaf", "op", "op", "op", "op", "op", "op", "op", "bin", "bin", "bin", "bin", "bin", "clone", "drop", "drop", "rg", "back", "back", "back", "zero", "grad", "set", "step", "ozero", "enter", "leave">>
KindsKeep == <<"leaf", "op", "op", "op", "bin", "bin", "bin", "clone", "clone", "drop", "drop", "drop", "back", "back", "back", "zero", "zero", "grad", "grad", "grad", "set", "set", "step", "ozero", "enter", "leave">>
KindsLoop == <<"op", "op", "op", "bin", "bin", "bin", "bin", "clone", "drop", "back", "back", "zero", "grad", "step", "step", "ozero", "enter", "enter", "leave">>
Kinds == CASE Focus = "keep" -> KindsKeep [] Focus = "loop" -> KindsLoop [] OTHER -> KindsAny
Pick(S, kind) ==
    LET full == Full(S)
        a == IF full = {} THEN "leaf" ELSE kind
    IN CASE a = "leaf" -> Ev("leaf", R(Free), 0, R({0, 1, 1}), "", R(Grid))
         [] a = "op" -> Ev("op", R(Free), R(full), 0, R(Un \ (IF R(1..3) = 1 THEN {} ELSE {"bad", "sign"})), <<0, 0>>)
         [] a = "bin" -> Ev("op", R(Free), R(full), R(full), R(Bin), <<0, 0>>)
         [] a \in {"clone", "grad"} -> Ev(a, R(Free), R(full), 0, "", <<0, 0>>)
         [] a = "drop" -> E0("drop", R(Free))
         [] a = "rg" -> Ev("rg", R(full), 0, R({0, 1}), "", <<0, 0>>)
         [] a \in {"back", "zero"} -> E0(a, R(full))
         [] a = "set" -> Ev("set", R(full), R(full), 0, "", <<0, 0>>)
         [] a \in {"step", "ozero"} -> Ev(a, R(full), R(full \cup {0}), 0, "", <<0, 0>>)
         [] a = "enter" -> E0("enter", 0)
         [] a = "leave" -> E0("leave", IF S.stk = <<>> THEN 0 ELSE R(1..Len(S.stk)))
         [] OTHER -> E0("none", 0)
\* all events for short histories (fixed small sets; slot 3 and 4 are targets)
Every(S) ==
    LET full == Full(S)
    IN {Ev("op", i, j, 0, f, <<0, 0>>) : i \in {1, 3}, j \in full, f \in {"cube", "rev", "swap", "sign", "bad", "same"}}
       \cup {Ev("op", i, j, k, f, <<0, 0>>) : i \in {3, 4}, j \in full, k \in full, f \in {"mul", "add", "fma"}}
       \cup {Ev("clone", 4, j, 0, "", <<0, 0>>) : j \in full}
       \cup {Ev("grad", 4, j, 0, "", <<0, 0>>) : j \in full}
       \cup {E0(a, i) : a \in {"drop", "back", "zero"}, i \in full}
       \cup {Ev("rg", i, 0, k, "", <<0, 0>>) : i \in full, k \in {0, 1}}
       \cup {Ev("set", i, j, 0, "", <<0, 0>>) : i \in full, j \in full}
       \cup {Ev("step", i, 0, 0, "", <<0, 0>>) : i \in full}
       \cup {E0("enter", 0)} \cup {E0("leave", i) : i \in 1..Len(S.stk)}
\* with nothing pending, exactly what the handles reach exists (-1: operations are pending)
Quiet(S) == IF Threads > 1 \/ Entries(S) # {} THEN -1 ELSE Cardinality(Needed(S))
Line(t, e, r) == [t |-> t, e |-> e, ok |-> r.ok, o |-> Obs(r.s), c |-> Quiet(r.s)]
Emit == CSVWrite("%1$s", <<ToJson([n |-> Threads, mode |-> Mode, p |-> P, ev |-> log])>>, IOEnv.OUT)
\* start of a history: parameters
Param(k) == Ev("leaf", k, 0, IF k = 2 /\ Mode # "round" THEN 0 ELSE 1, "", <<k + 1, 1 - k * 2>>)
Start(S) == LET r1 == Do(S, Param(1)) IN Do(r1.s, Param(2)).s
LogStart(t) == LET r1 == Do(New0, Param(1)) IN <<Line(t, Param(1), r1), Line(t, Param(2), Do(r1.s, Param(2)))>>
RECURSIVE AllStarts(_)
AllStarts(t) == IF t > Threads THEN <<>> ELSE LogStart(t) \o AllStarts(t + 1)
Init == st = [t \in 1..Threads |-> Start(New0)] /\ log = AllStarts(1) /\ done = FALSE
Next == \/ /\ Len(log) < Depth /\ done' = done
           /\ IF Mode = "all"
              THEN \E e \in Every(st[1]) : /\ Can(st[1], e)
                                            /\ LET r == Do(st[1], e) IN st' = [st EXCEPT ![1] = r.s] /\ log' = Append(log, Line(1, e, r))
              ELSE \E t \in {R(1..Threads)} : \E c \in {R(1..Len(Kinds))} : \E e \in {Pick(st[t], Kinds[c])} :
                   IF Can(st[t], e) THEN LET r == Do(st[t], e) IN st' = [st EXCEPT ![t] = r.s] /\ log' = Append(log, Line(t, e, r))
                   ELSE UNCHANGED <<st, log>>
        \/ Len(log) = Depth /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED <<st, log>>
Spec == Init /\ [][Next]_vars
AllWell == \A t \in 1..Threads : WellFormed(st[t])
\* a thread's state changes only by its own events
Alone == \A t \in 1..Threads : LET own == SelectSeq(log, LAMBDA l : l.t = t) IN own # <<>> => own[Len(own)].o = Obs(st[t])
\* a tensor still readable is the one that was put there: assignments aside, values never change
Kept == [][\A t \in 1..Threads : \A u \in 1..Len(st[t].ten) :
            (log' # log /\ log'[Len(log')].t = t /\ log'[Len(log')].e.a \notin {"set", "step"}) => st'[t].ten[u].v = st[t].ten[u].v]_vars
NoGradUnasked == [][\A t \in 1..Threads : \A u \in 1..Len(st[t].ten) :
            ~st[t].ten[u].rg => st'[t].ten[u].g = st[t].ten[u].g]_vars
===========================================================================
