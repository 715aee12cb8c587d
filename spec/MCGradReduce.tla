---------------------------- MODULE MCGradReduce ----------------------------
(* G01 over reductions and scans.  l1_norm and the p-norms for p other than 2 are built from abs, which the library
   declares not differentiable (backward refuses it), so they ask for nothing here. *)
EXTENDS MCReduce, Grad
IntG == {"sum", "max", "min"}
GReqs == CASE Mode = "int" -> {q \in IntReqs : q.op \in IntG} \cup {q \in AlongReqs : q.op = "cumsum"} \cup ToShapeReqs \cup {q \in AllReqs : q.op = "sum_all"}
           [] Mode = "real" -> {q \in RealReqs : q.op \notin {"sum", "max", "min", "l1_norm", "norm"}} \cup {q \in AlongReqs : q.op # "cumsum"} \cup {q \in AllReqs : q.op # "sum_all"}
SymResults(q, t) == CASE q.m = "int" \/ q.op = "sum_all" -> <<Red(t, q.dims, q.keep, LAMBDA g : RealRed(IF q.op = "sum_all" THEN "sum" ELSE q.op, g, 0))>>
                    [] q.op = "cumsum" -> <<Along(t, q.dims[1], LAMBDA l, j : TSum(SubSeq(l, 1, j)))>>
                    [] q.m = "tosh" -> <<LET tg == q.dims n == Len(t.s) - Len(tg) w == TLCEval(RM(tg)) IN
                          [s |-> tg, d |-> TLCEval([p \in 1..Prod(tg) |-> <<"sum">> \o [k \in 1..Len(t.d) |-> IF Rav(BIdx(Unrav(k - 1, t.s), tg), tg) = p - 1 THEN t.d[k] ELSE 0]])]>>
                    [] OTHER -> Results(q, t)
Sym(q) == q.m \in {"real"} \/ q.op \in {"softmax", "log_softmax", "mean_all", "std_all", "var_all"}
RealPt(q, k) == LET h == GapPerm(q.s, k) IN
    CASE q.op \in {"logsum"} -> <<"/", 1 + 2 * (h % 19), 8>>
      [] q.op = "prod" -> IF q.s % 3 = 0 /\ h % 5 = 0 THEN 0 ELSE <<"/", IF h % 3 = 0 THEN -7 - 2 * (h % 4) ELSE 5 + 2 * (h % 5), 8>>
      [] q.op \in {"softmax", "log_softmax", "logsumexp"} /\ q.s % 3 = 0 -> <<"/", (h % 45) - 22, 2>>
      [] OTHER -> <<"/", 2 * (h - 40) + 1, 16>>
Data(q, o) == [i \in 1..Len(o) |-> Rebuild(o[i], [k \in 1..Len(o[i].leaf.d) |-> IF Sym(q) THEN RealPt(q, k) ELSE IF q.op \in {"max", "min"} THEN Gap(q.s, 1, k) ELSE Small(q.s, 1, k)])]
GInit == req \in GReqs /\ res = <<>>
GNext == /\ res = <<>>
         /\ LET o == TLCEval(Data(req, <<Opnd(req.kind, req.sh, LAMBDA k : 0)>>)) so == Symb(o) r == TLCEval(SymResults(req, so[1].t))
                case == ProgT(so, Ns(o), req.op, Param(req), r, [ask |-> <<TRUE>>, vals |-> Vals(o)]) IN
            /\ res' = <<"done">>
            /\ Export([loss |-> LossAt(case, <<1>>, Weights(r, req.s))] @@ case)
         /\ UNCHANGED req
GSpec == GInit /\ [][GNext]_vars
=============================================================================
