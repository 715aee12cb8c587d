------------------------------- MODULE Life -------------------------------
(* What a program sees of its tensors: handles, gradients, tapes and gradient contexts.  One state S is one thread's:
     S.ten   tensors ever made: [v value, rg requires gradients, g its gradient tensor or 0]
     S.h     handle slots: 0 empty, otherwise the tensor
     S.stk   contexts entered and not left yet, innermost last (0 is the bottom one, always there)
     S.tape  for each context (index + 1) the operations recorded since its tape was last consumed, or <<>> after leaving
     S.n     contexts made so far
   Values are vectors of two whole numbers; every operation is elementwise or swaps the two elements. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS H, Lim
Slots == 1..H
New0 == [ten |-> <<>>, h |-> [i \in Slots |-> 0], stk |-> <<>>, tape |-> <<<<>>>>, n |-> 0]
Active(S) == IF S.stk = <<>> THEN 0 ELSE S.stk[Len(S.stk)]
V2(f(_)) == <<f(1), f(2)>>
Has(S, i) == S.h[i] # 0
Val(S, i) == S.ten[S.h[i]].v
AbsI(x) == IF x < 0 THEN -x ELSE x
SgnI(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Small(v) == AbsI(v[1]) <= Lim /\ AbsI(v[2]) <= Lim
\* --- the operations: value and vector-Jacobian product
Lin1 == {"neg", "mul3", "rev", "swap", "same", "half2", "pick"}
Un == Lin1 \cup {"cube", "sign", "bad"}
Bin == {"add", "sub", "mul", "fma"}
Fn(f, x, y) ==
    CASE f = "neg" -> <<-x[1], -x[2]>>
      [] f = "mul3" -> <<3 * x[1], 3 * x[2]>>
      [] f \in {"rev", "swap"} -> <<x[2], x[1]>>
      [] f \in {"same", "half2"} -> x
      [] f = "pick" -> <<x[1], x[1]>>
      [] f = "cube" -> <<x[1] * x[1] * x[1], x[2] * x[2] * x[2]>>
      [] f = "sign" -> <<SgnI(x[1]), SgnI(x[2])>>
      [] f = "bad" -> <<5, 5>>                       \* recorded, but it cannot be differentiated
      [] f = "add" -> <<x[1] + y[1], x[2] + y[2]>>
      [] f = "sub" -> <<x[1] - y[1], x[2] - y[2]>>
      [] f = "mul" -> <<x[1] * y[1], x[2] * y[2]>>
      [] f = "fma" -> <<x[1] * y[1] + x[1], x[2] * y[2] + x[2]>>
Records(f) == f # "sign"
\* gradients of the inputs from the gradient g of the result
Vjp(f, x, y, g) ==
    CASE f = "neg" -> << <<-g[1], -g[2]>> >>
      [] f = "mul3" -> << <<3 * g[1], 3 * g[2]>> >>
      [] f \in {"rev", "swap"} -> << <<g[2], g[1]>> >>
      [] f \in {"same", "half2"} -> << g >>
      [] f = "pick" -> << <<g[1] + g[2], 0>> >>
      [] f = "cube" -> << <<3 * x[1] * x[1] * g[1], 3 * x[2] * x[2] * g[2]>> >>
      [] f = "add" -> << g, g >>
      [] f = "sub" -> << g, <<-g[1], -g[2]>> >>
      [] f = "mul" -> << <<g[1] * y[1], g[2] * y[2]>>, <<g[1] * x[1], g[2] * x[2]>> >>
      [] f = "fma" -> << <<g[1] * (y[1] + 1), g[2] * (y[2] + 1)>>, <<g[1] * x[1], g[2] * x[2]>> >>
      [] OTHER -> << >>
Put(S, i, t) == [S EXCEPT !.h[i] = t]
AddTen(S, v, rg) == [S EXCEPT !.ten = Append(@, [v |-> v, rg |-> rg, g |-> 0])]
\* --- actions: [s new state, ok whether the library accepts the request]
Leaf(S, i, v, rg) == [s |-> Put(AddTen(S, v, rg), i, Len(S.ten) + 1), ok |-> TRUE]
Apply(S, f, ins, i) ==
    LET ts == [j \in 1..Len(ins) |-> S.h[ins[j]]]
        x == S.ten[ts[1]].v
        y == S.ten[ts[Len(ts)]].v
        rg == Records(f) /\ \E j \in 1..Len(ts) : S.ten[ts[j]].rg
        T == AddTen(S, Fn(f, x, y), rg)
        id == Len(S.ten) + 1
        U == IF rg THEN [T EXCEPT !.tape[Active(S) + 1] = Append(@, [o |-> id, f |-> f, i |-> ts])] ELSE T
    IN [s |-> Put(U, i, id), ok |-> TRUE]
Clone(S, j, i) == [s |-> Put(S, i, S.h[j]), ok |-> TRUE]
Drop(S, i) == [s |-> Put(S, i, 0), ok |-> TRUE]
SetRg(S, i, b) == [s |-> [S EXCEPT !.ten[S.h[i]].rg = b], ok |-> TRUE]
\* one pass over the tape, latest operation first; G maps tensors to gradients (absent: <<>>)
RECURSIVE Back(_, _, _)
Back(S, tape, G) ==
    IF tape = <<>> \/ G.bad THEN G
    ELSE LET e == tape[Len(tape)]
             rest == SubSeq(tape, 1, Len(tape) - 1)
             g == G.m[e.o]
         IN IF g = <<>> THEN Back(S, rest, G)
            ELSE IF e.f = "bad" THEN [G EXCEPT !.bad = TRUE]
            ELSE LET ds == Vjp(e.f, S.ten[e.i[1]].v, S.ten[e.i[Len(e.i)]].v, g)
                     plus(a, b) == IF a = <<>> THEN b ELSE <<a[1] + b[1], a[2] + b[2]>>
                     m1 == [G.m EXCEPT ![e.i[1]] = plus(@, ds[1])]
                     m2 == IF Len(e.i) = 1 THEN m1 ELSE [m1 EXCEPT ![e.i[2]] = plus(@, ds[2])]
                 IN Back(S, rest, [G EXCEPT !.m = m2])
\* each tensor of the set gets a gradient tensor of its own
RECURSIVE SetGrads(_, _, _)
SetGrads(S, ids, m) ==
    IF ids = {} THEN S
    ELSE LET t == CHOOSE t \in ids : \A u \in ids : t <= u
         IN SetGrads([AddTen(S, m[t], FALSE) EXCEPT !.ten[t].g = Len(S.ten) + 1], ids \ {t}, m)
Grads(S, i) == Back(S, S.tape[Active(S) + 1], [m |-> [t \in 1..Len(S.ten) |-> IF t = S.h[i] THEN <<1, 1>> ELSE <<>>], bad |-> FALSE])
Backward(S, i) ==
    IF ~S.ten[S.h[i]].rg THEN [s |-> S, ok |-> FALSE]
    ELSE LET G == Grads(S, i)
             T == SetGrads(S, {t \in 1..Len(S.ten) : G.m[t] # <<>> /\ S.ten[t].rg}, G.m)
         IN IF G.bad THEN [s |-> S, ok |-> FALSE]
            ELSE [s |-> [T EXCEPT !.tape[Active(S) + 1] = <<>>], ok |-> TRUE]
Zero1(S, t) == IF S.ten[t].rg /\ S.ten[t].g # 0 THEN [AddTen(S, <<0, 0>>, FALSE) EXCEPT !.ten[t].g = Len(S.ten) + 1] ELSE S
ZeroGrad(S, i) == [s |-> Zero1(S, S.h[i]), ok |-> TRUE]
GradOf(S, j, i) == LET g == S.ten[S.h[j]].g IN IF g = 0 THEN [s |-> S, ok |-> FALSE] ELSE [s |-> Put(S, i, g), ok |-> TRUE]
\* an assignment changes the value of one tensor and nothing else
Recorded(S, t) == \E c \in 1..Len(S.tape) : \E k \in 1..Len(S.tape[c]) : S.tape[c][k].o = t \/ \E j \in 1..Len(S.tape[c][k].i) : S.tape[c][k].i[j] = t
Assign(S, i, j) == [s |-> [S EXCEPT !.ten[S.h[i]].v = Val(S, j)], ok |-> TRUE]
\* SGD with rate 1 over the parameters is: refused when one has no gradient
Step(S, is) ==
    IF \E k \in 1..Len(is) : S.ten[S.h[is[k]]].g = 0 THEN [s |-> S, ok |-> FALSE]
    ELSE LET one(R, i) == LET t == R.h[i] IN [R EXCEPT !.ten[t].v = <<@[1] - R.ten[R.ten[t].g].v[1], @[2] - R.ten[R.ten[t].g].v[2]>>]
             s1 == one(S, is[1])
         IN [s |-> IF Len(is) = 1 THEN s1 ELSE one(s1, is[2]), ok |-> TRUE]
OptZero(S, is) == [s |-> LET s1 == Zero1(S, S.h[is[1]]) IN IF Len(is) = 1 THEN s1 ELSE Zero1(s1, S.h[is[2]]), ok |-> TRUE]
Enter(S) == [s |-> [S EXCEPT !.n = @ + 1, !.stk = Append(@, S.n + 1), !.tape = Append(@, <<>>)], ok |-> TRUE]
\* contexts may be left in any order
Leave(S, k) == [s |-> [S EXCEPT !.stk = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@)), !.tape[S.stk[k] + 1] = <<>>], ok |-> TRUE]
\* --- what is observed through every handle
Obs(S) == [i \in Slots |-> IF ~Has(S, i) THEN <<>>
                           ELSE LET t == S.ten[S.h[i]] IN <<t.v, IF t.g = 0 THEN <<>> ELSE S.ten[t.g].v, IF t.rg THEN 1 ELSE 0>>]
\* --- guarantees of the specification itself
Entries(S) == UNION {{S.tape[c][k] : k \in 1..Len(S.tape[c])} : c \in 1..Len(S.tape)}
WellFormed(S) ==
    /\ \A i \in Slots : S.h[i] \in 0..Len(S.ten)
    /\ \A t \in 1..Len(S.ten) : S.ten[t].g \in 0..Len(S.ten)
    /\ \A t, u \in 1..Len(S.ten) : t # u /\ S.ten[t].g # 0 => S.ten[t].g # S.ten[u].g
    /\ \A e \in Entries(S) : \A j \in 1..Len(e.i) : e.i[j] < e.o
    /\ Len(S.tape) = S.n + 1
    /\ \A c \in 1..S.n : (\A k \in 1..Len(S.stk) : S.stk[k] # c) => S.tape[c + 1] = <<>>
\* records that must exist: what handles reach through gradients and the operations that produced it
RECURSIVE Reach(_, _)
Reach(S, X) ==
    LET Y == X \cup {S.ten[t].g : t \in {u \in X : S.ten[u].g # 0}}
               \cup UNION {{e.i[j] : j \in 1..Len(e.i)} : e \in {e \in Entries(S) : e.o \in X}}
    IN IF Y = X THEN X ELSE Reach(S, Y)
Needed(S) == Reach(S, {S.h[i] : i \in Slots} \ {0})
===========================================================================
