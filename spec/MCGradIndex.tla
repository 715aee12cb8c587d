---------------------------- MODULE MCGradIndex -----------------------------
(* G01 over indexing, joining, cutting, padding and windows: the elements are variables,
   the definitions move, add and compare them. *)
EXTENDS MCIndex, Grad
GReqs == CASE Mode = "sel" -> SelReqs [] Mode = "join" -> JoinReqs \cup CutReqs [] Mode = "pad" -> PadReqs2 [] Mode = "win" -> WinReqs [] Mode = "comp" -> CompReqs
Isn(q, o) == [i \in 1..Len(o) |-> Tags(q, o)[i] = "n"]
Datas(q, o) == [i \in 1..Len(o) |-> IF Isn(q, o)[i] THEN Rebuild(o[i], [k \in 1..Len(o[i].leaf.d) |-> Gap(q.s, i, k)]) ELSE o[i]]
SymN(q, o) == LET so == Symb(o) IN [i \in 1..Len(o) |-> IF Isn(q, o)[i] THEN so[i] ELSE o[i]]
SymScatter(op, o, dim) == Scatter(o[1].t, dim, o[2].t, o[3].t, LAMBDA x, y :
    CASE op = "scatter_add" -> <<"+", x, y>> [] op = "scatter_max" -> <<"max", x, y>> [] op = "scatter_min" -> <<"min", x, y>>)
SymWin(q, t) == Window(t, WinFor(q), StFor(q), WPad(q), LAMBDA g : IF g = <<>> THEN 0 ELSE
    CASE q.red = "sum" -> <<"sum">> \o g [] q.red = "mean" -> <<"/", <<"sum">> \o g, Prod(WinFor(q))>>
      [] q.red = "max" -> <<"maxof">> \o g [] q.red = "min" -> <<"minof">> \o g)
SymRes(q, o) == CASE q.m = "win" -> <<SymWin(q, o[1].t)>>
                  [] q.m \in {"scatter_add", "scatter_max", "scatter_min"} -> <<SymScatter(q.m, o, q.dim)>>
                  [] OTHER -> Results(q, o)
GInit == req \in GReqs /\ res = <<>>
GNext == /\ res = <<>>
         /\ LET o == TLCEval(Datas(req, Operands(req))) so == TLCEval(SymN(req, o)) r == TLCEval(SymRes(req, so))
                case == ProgT(so, Tags(req, o), req.op, Param(req), r, [ask |-> Asks(Isn(req, o), req.s), vals |-> Vals(o)]) IN
            /\ res' = <<"done">>
            /\ Export([loss |-> LossAt(case, [i \in 1..Len(r) |-> i], Weights(r, req.s))] @@ case)
         /\ UNCHANGED req
GSpec == GInit /\ [][GNext]_vars
=============================================================================
