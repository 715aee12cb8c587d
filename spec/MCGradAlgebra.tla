--------------------------- MODULE MCGradAlgebra ----------------------------
(* G01 over products, contractions, convolutions, resizing and linear algebra. *)
EXTENDS MCAlgebra, Grad
GReqs == CASE Mode = "mm" -> MMReqs [] Mode = "ein" -> EinReqs
           [] Mode = "conv" -> {q \in ConvReqs : OkConv(q) /\ q.f \in {"conv", "convt"}} [] Mode = "gw" -> {q \in ConvReqs : OkConv(q) /\ q.f \in {"gw", "tgw"}}
           [] Mode = "rz" -> {q \in RzReqs : OkRz(q)}
           [] Mode = "la" -> {q \in LaReqs : OkLa(q) /\ q.shapes[1][Len(q.shapes[1])] <= 3 /\ q.c \in {"lu", "perm"}}
\* minor of a square matrix given by its entries M(i, j), i, j in 0..n-1
RECURSIVE SDet(_, _, _)
SDet(M, rows, cols) == IF Len(rows) = 1 THEN M[rows[1]][cols[1]]
    ELSE <<"sum">> \o [j \in 1..Len(cols) |-> <<"*", IF j % 2 = 1 THEN 1 ELSE -1, <<"*", M[rows[1]][cols[j]], SDet(M, Tail(rows), Drop1(cols, j))>>>>]
Upto(n) == [i \in 1..n |-> i]
MatQ(t, b) == LET r == Len(t.s) n == t.s[r] IN [i \in 1..n |-> [j \in 1..n |-> At(t, b \o <<i - 1, j - 1>>)]]
InvAt(M, n, i, j) == IF n = 1 THEN <<"/", 1, M[1][1]>>
    ELSE <<"/", <<"*", IF (i + j) % 2 = 0 THEN 1 ELSE -1, SDet(M, Drop1(Upto(n), j), Drop1(Upto(n), i))>>, SDet(M, Upto(n), Upto(n))>>
LaSym(q, o) == LET t == o[1].t r == Len(t.s) n == t.s[r] bs == SubQ(t.s, r - 2) IN
    CASE q.op = "det" -> Build(IF r = 2 THEN <<1>> ELSE bs, LAMBDA b : SDet(MatQ(t, IF r = 2 THEN <<>> ELSE b), Upto(n), Upto(n)))
      [] q.op = "trace" -> Build(IF r = 2 THEN <<1>> ELSE bs, LAMBDA b : <<"sum">> \o [i \in 1..n |-> MatQ(t, IF r = 2 THEN <<>> ELSE b)[i][i]])
      [] q.op = "inv" -> Build(t.s, LAMBDA ix : InvAt(MatQ(t, SubQ(ix, r - 2)), n, ix[r - 1] + 1, ix[r] + 1))
      [] q.op = "solve1" -> Build(SubQ(t.s, r - 1), LAMBDA ix : LET M == MatQ(t, SubQ(ix, r - 2)) IN
             <<"sum">> \o [k \in 1..n |-> <<"*", InvAt(M, n, ix[r - 1] + 1, k), At(o[2].t, <<k - 1>>)>>])
      [] q.op = "solve2" -> Build(SubQ(t.s, r - 1) \o <<2>>, LAMBDA ix : LET M == MatQ(t, SubQ(ix, r - 2)) IN
             <<"sum">> \o [k \in 1..n |-> <<"*", InvAt(M, n, ix[r - 1] + 1, k), At(o[2].t, SubQ(ix, r - 2) \o <<k - 1, ix[r]>>)>>])
LaOk(q) == q.op # "solve1" \/ Len(q.shapes[1]) = 2
GInit == req \in {q \in GReqs : q.m # "la" \/ LaOk(q)} /\ res = [s |-> <<-1>>, d |-> <<>>]
GNext == /\ res.s = <<-1>>
         /\ LET o == TLCEval(Operands(req)) so == Symb(o)
                r == TLCEval(IF req.m = "la" THEN LaSym(req, so) ELSE Result(req, so))
                case == ProgT(so, Ns(o), OpName(req), Param(req), <<r>>, [ask |-> Asks([i \in 1..Len(o) |-> TRUE], req.s), vals |-> Vals(o)]) IN
            /\ res' = [s |-> r.s, d |-> <<>>]
            /\ Export([loss |-> LossAt(case, <<1>>, Weights(<<r>>, req.s))] @@ case)
         /\ UNCHANGED req
GSpec == GInit /\ [][GNext]_vars
=============================================================================
