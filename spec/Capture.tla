------------------------------ MODULE Capture ------------------------------
(* Capture sessions.  Threads open, close, capture and drop boards; what a thread computes while it has a board open goes
   to the innermost open one, and is computed at once otherwise.  A value is eager (it has data) or belongs to one board.
   val[u] = [b |-> 0 (eager) or a board, v |-> the pair of integers it denotes, n |-> its place among the board's nodes (0: not a result)]
   board[x] = [st |-> "no"|"live"|"gone", ins |-> value ids, nodes |-> [op, in, out], tg |-> value ids] *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS H, NB, Threads
Slots == 1..H
Boards == 1..NB
New0 == [val |-> <<>>, h |-> [i \in Slots |-> 0], open |-> [t \in 1..Threads |-> <<>>],
         board |-> [x \in Boards |-> [st |-> "no", ins |-> <<>>, nodes |-> <<>>, tg |-> <<>>]]]
Has(S, i) == S.h[i] # 0
V(S, i) == S.val[S.h[i]]
Live(S, x) == S.board[x].st = "live"
OpenLive(S, t) == SelectSeq(S.open[t], LAMBDA x : Live(S, x))
\* the board that receives what thread t computes (0: none)
Active(S, t) == LET o == OpenLive(S, t) IN IF o = <<>> THEN 0 ELSE o[Len(o)]
Fn(f, x, y) == CASE f = "add" -> <<x[1] + y[1], x[2] + y[2]>>
                 [] f = "sub" -> <<x[1] - y[1], x[2] - y[2]>>
                 [] f = "neg" -> <<-x[1], -x[2]>>
                 [] f = "mul_scalar" -> <<2 * x[1], 2 * x[2]>>
                 [] f = "flip" -> <<x[2], x[1]>>
                 [] OTHER -> x
Res(S, ok) == [s |-> S, ok |-> ok, snap |-> <<>>]
Put(S, i, r) == [S EXCEPT !.val = Append(@, r), !.h[i] = Len(S.val) + 1]
New(S, x) == Res([S EXCEPT !.board[x].st = "live"], TRUE)
Open(S, t, x) == Res([S EXCEPT !.open[t] = Append(SelectSeq(OpenLive(S, t), LAMBDA y : y # x), x)], TRUE)
Close(S, t, x) == Res([S EXCEPT !.open[t] = SelectSeq(@, LAMBDA y : y # x)], TRUE)
DropBoard(S, x) == Res([S EXCEPT !.board[x].st = "gone"], TRUE)
Const(S, i, v) == Res(Put(S, i, [b |-> 0, v |-> v, n |-> 0]), TRUE)
Input(S, t, i, v) ==
    LET x == Active(S, t) R == Put(S, i, [b |-> x, v |-> v, n |-> 0])
    IN IF x = 0 THEN Res(S, FALSE) ELSE Res([R EXCEPT !.board[x].ins = Append(@, R.h[i])], TRUE)
\* f on the values of slots js, into slot i
Apply(S, t, f, js, i) ==
    LET x == Active(S, t)
        us == [k \in 1..Len(js) |-> S.h[js[k]]]
        fit == \A k \in 1..Len(us) : S.val[us[k]].b \in {0, x}
        v == Fn(f, S.val[us[1]].v, S.val[us[Len(us)]].v)
        R == Put(S, i, [b |-> x, v |-> v, n |-> IF x = 0 THEN 0 ELSE Len(S.board[x].nodes) + 1])
    IN IF f = "bad" \/ ~fit THEN Res(S, FALSE)
       ELSE IF x = 0 THEN Res(R, TRUE)
       ELSE Res([R EXCEPT !.board[x].nodes = Append(@, [op |-> f, in |-> us, out |-> R.h[i]])], TRUE)
Target(S, x, i) == Res(IF Live(S, x) THEN [S EXCEPT !.board[x].tg = Append(@, S.h[i])] ELSE S, TRUE)
Drop(S, i) == Res([S EXCEPT !.h[i] = 0], TRUE)
\* values a board's targets depend on
RECURSIVE Back(_, _, _)
Back(B, k, need) == IF k = 0 THEN need
                    ELSE LET nd == B.nodes[k] IN Back(B, k - 1, IF nd.out \in need THEN need \cup {nd.in[j] : j \in 1..Len(nd.in)} ELSE need)
Rng(s) == {s[k] : k \in 1..Len(s)}
Needed(B) == Back(B, Len(B.nodes), Rng(B.tg))
Snap(S, x) ==
    LET B == S.board[x] need == Needed(B)
    IN [ins |-> [k \in 1..Len(B.ins) |-> S.val[B.ins[k]].v],
        nodes |-> LET kept == SelectSeq(B.nodes, LAMBDA nd : nd.out \in need) IN [k \in 1..Len(kept) |-> kept[k].op],
        tg |-> [k \in 1..Len(B.tg) |-> S.val[B.tg[k]].v]]
Take(S, x) == [s |-> [S EXCEPT !.board[x].st = "gone"], ok |-> TRUE, snap |-> <<Snap(S, x)>>]
\* what can be seen: the data of every eager value held
Obs(S) == [i \in Slots |-> IF ~Has(S, i) THEN <<>> ELSE IF V(S, i).b = 0 THEN V(S, i).v ELSE <<0>>]
WellFormed(S) ==
    \A x \in Boards : LET B == S.board[x] IN
        /\ \A k \in 1..Len(B.nodes) : LET nd == B.nodes[k] IN
             /\ S.val[nd.out].b = x
             /\ \A j \in 1..Len(nd.in) : LET u == nd.in[j] IN
                    S.val[u].b = 0 \/ u \in Rng(B.ins) \/ \E q \in 1..(k - 1) : B.nodes[q].out = u
             /\ S.val[nd.out].v = Fn(nd.op, S.val[nd.in[1]].v, S.val[nd.in[Len(nd.in)]].v)
        /\ \A k \in 1..Len(B.tg) : S.val[B.tg[k]].b \in {0, x}
============================================================================
