----------------------------- MODULE MCCapture -----------------------------
(* Histories of capture sessions.  Mode "shared": threads share values and boards; "own": every thread has its own;
   "all": all short histories over a small fixed set of events. *)
EXTENDS Capture, Json, CSV, IOUtils, TLC
CONSTANTS Depth, Mode
VARIABLES st, log, done
vars == <<st, log, done>>
R(X) == RandomElement(X)
Ev(a, i, j, k, f) == [a |-> a, i |-> i, j |-> j, k |-> k, f |-> f]
Do(S, t, e) ==
    CASE e.a = "new" -> New(S, e.i)
      [] e.a = "open" -> Open(S, t, e.i)
      [] e.a = "close" -> Close(S, t, e.i)
      [] e.a = "take" -> Take(S, e.i)
      [] e.a = "dropb" -> DropBoard(S, e.i)
      [] e.a = "const" -> Const(S, e.i, <<e.j, e.k>>)
      [] e.a = "input" -> Input(S, t, e.i, <<e.j, e.k>>)
      [] e.a = "op" -> Apply(S, t, e.f, IF e.k = 0 THEN <<e.j>> ELSE <<e.j, e.k>>, e.i)
      [] e.a = "target" -> Target(S, e.i, e.j)
      [] e.a = "drop" -> Drop(S, e.i)
Small(v) == v[1] \in -10000..10000 /\ v[2] \in -10000..10000
Can(S, t, e) ==
    CASE e.a = "new" -> S.board[e.i].st = "no"
      [] e.a \in {"open", "close"} -> S.board[e.i].st # "no"
      [] e.a \in {"take", "dropb"} -> Live(S, e.i)
      [] e.a \in {"const", "input"} -> TRUE
      [] e.a = "op" -> /\ e.j \in Slots /\ Has(S, e.j) /\ (IF e.k = 0 THEN TRUE ELSE Has(S, e.k))
                       /\ Small(Fn(e.f, V(S, e.j).v, IF e.k = 0 THEN V(S, e.j).v ELSE V(S, e.k).v))
      \* (naming a value of another capture as a target is left open)
      [] e.a = "target" -> e.j \in Slots /\ S.board[e.i].st # "no" /\ Has(S, e.j) /\ V(S, e.j).b \in {0, e.i}
      [] e.a = "drop" -> Has(S, e.i)
      [] OTHER -> FALSE
OwnOf(t, X) == IF Mode = "own" THEN {x \in X : (x - 1) % Threads = t - 1} ELSE X
FullOf(S, t) == {i \in OwnOf(t, Slots) : Has(S, i)}
Kinds == <<"new", "new", "open", "open", "open", "close", "close", "take", "dropb", "const", "const", "input", "input", "input", "op", "op", "op", "bin", "bin", "bin", "bin",
           "bin", "target", "target", "target", "drop">>
LiveOf(S, t) == {x \in OwnOf(t, Boards) : Live(S, x)}
AnyB(S, t) == LET l == LiveOf(S, t) IN IF l # {} /\ R(1..8) > 1 THEN R(l) ELSE R(OwnOf(t, Boards))
\* a value to work on: mostly one that fits the thread's active board
Fit(S, t) == LET x == Active(S, t) f == {i \in FullOf(S, t) : V(S, i).b \in {0, x}} IN IF f # {} /\ R(1..8) > 1 THEN R(f) ELSE R(FullOf(S, t))
Goal(S, t, x) == LET f == {i \in FullOf(S, t) : V(S, i).b = x} IN IF f # {} THEN R(f) ELSE R(FullOf(S, t))
Pick(S, t, kind) ==
    LET slot == R(OwnOf(t, Slots)) IN
    CASE FullOf(S, t) = {} /\ kind \in {"op", "bin", "target", "drop"} -> Ev("const", R(OwnOf(t, Slots)), R(-5..5), R(1..9), "")
      [] kind = "new" -> LET n == {x \in OwnOf(t, Boards) : S.board[x].st = "no"} IN IF n = {} THEN Ev("none", 0, 0, 0, "") ELSE Ev("new", R(n), 0, 0, "")
      [] kind \in {"open", "close"} -> Ev(kind, AnyB(S, t), 0, 0, "")
      [] kind \in {"take", "dropb"} -> LET l == {x \in LiveOf(S, t) : Len(S.board[x].tg) > 0 \/ R(1..6) = 1} IN IF l = {} THEN Ev("none", 0, 0, 0, "") ELSE Ev(kind, R(l), 0, 0, "")
      [] kind \in {"const", "input"} -> Ev(kind, R(OwnOf(t, Slots)), R(-5..5), R(1..9), "")
      [] kind = "op" -> Ev("op", R(OwnOf(t, Slots)), Fit(S, t), 0, R({"neg", "mul_scalar", "flip", "bad"}))
      [] kind = "bin" -> Ev("op", R(OwnOf(t, Slots)), Fit(S, t), Fit(S, t), R({"add", "sub"}))
      [] kind = "target" -> LET l == LiveOf(S, t) IN IF l = {} THEN Ev("none", 0, 0, 0, "") ELSE LET x == CHOOSE y \in {R(l)} : TRUE IN Ev("target", x, Goal(S, t, x), 0, "")
      [] kind = "drop" -> Ev("drop", R(FullOf(S, t)), 0, 0, "")
Every(S) == {Ev(a, x, 0, 0, "") : a \in {"open", "close", "take", "dropb"}, x \in Boards}
            \cup {Ev("input", 2, 3, 4, "")} \cup {Ev("op", 3, 1, 0, "neg")} \cup {Ev("op", 3, 2, 0, "bad")}
            \cup {Ev("op", 3, j, k, "sub") : j \in {1, 2, 3}, k \in {2, 3}} \cup {Ev("target", x, j, 0, "") : x \in Boards, j \in {1, 3}}
Line(t, e, r) == [t |-> t, e |-> e, ok |-> r.ok, o |-> Obs(r.s), act |-> Active(r.s, t) # 0, snap |-> r.snap]
Emit == CSVWrite("%1$s", <<ToJson([n |-> Threads, mode |-> Mode, slots |-> H, boards |-> NB, ev |-> log])>>, IOEnv.OUT)
\* "all" starts with the boards made and one constant
E1 == Ev("new", 1, 0, 0, "")
E2 == Ev("new", 2, 0, 0, "")
E3 == Ev("const", 1, 1, 2, "")
S1 == New(New0, 1)
S2 == New(S1.s, 2)
S3 == Const(S2.s, 1, <<1, 2>>)
Init == IF Mode = "all" THEN st = S3.s /\ log = <<Line(1, E1, S1), Line(1, E2, S2), Line(1, E3, S3)>> /\ done = FALSE
        ELSE st = New0 /\ log = <<>> /\ done = FALSE
Next == \/ /\ Len(log) < Depth /\ done' = done
           /\ IF Mode = "all"
              THEN \E t \in 1..Threads : \E e \in Every(st) : Can(st, t, e) /\ LET r == Do(st, t, e) IN st' = r.s /\ log' = Append(log, Line(t, e, r))
              ELSE \E t \in {R(1..Threads)} : \E c \in {R(1..Len(Kinds))} : \E e \in {Pick(st, t, Kinds[c])} :
                   IF Can(st, t, e) THEN LET r == Do(st, t, e) IN st' = r.s /\ log' = Append(log, Line(t, e, r)) ELSE UNCHANGED <<st, log>>
        \/ Len(log) = Depth /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED <<st, log>>
Spec == Init /\ [][Next]_vars
Sound == WellFormed(st)
\* a thread adds to no board but its active one, and ends only what it names
Separate == [][log' # log =>
    LET l == log'[Len(log')] IN \A x \in Boards :
        /\ (st'.board[x].nodes # st.board[x].nodes \/ st'.board[x].ins # st.board[x].ins) => x = Active(st, l.t)
        /\ (st'.board[x].st # st.board[x].st \/ st'.board[x].tg # st.board[x].tg) => l.e.i = x
        /\ \A t \in (1..Threads) \ {l.t} : Active(st', t) # Active(st, t) => l.e.a \in {"take", "dropb"}]_vars
============================================================================
