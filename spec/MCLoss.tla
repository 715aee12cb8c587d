------------------------------- MODULE MCLoss -------------------------------
(* N02. A loss is its formula over the elements of its operands; the gradient a prediction
   (or a real-valued target) receives is the derivative of that formula. *)
EXTENDS MCMath, Grad
Plain == {"mse", "mae", "huber", "smooth_l1", "bce", "bcel", "kl", "kllog"}
LossShapes == {<<1>>, <<5>>, <<3, 4>>, <<4, 1>>, <<2, 3, 2>>, <<2, 2, 3, 2>>}
\* class losses: shape of the scores, and the axis of the classes (0-based)
ClassShapes == {<<<<4, 3>>, 1>>, <<<<1, 5>>, 1>>, <<<<3, 4>>, 0>>, <<<<2, 3, 4>>, 2>>, <<<<2, 3, 4>>, 1>>, <<<<3, 2, 2>>, 0>>, <<<<5>>, 0>>, <<<<2, 3, 2, 2>>, 1>>}
Kinds(sh) == KindsFor(sh) \ {"bc"}
PlainReqs == UNION {{[m |-> "plain", op |-> op, shapes |-> <<sh, sh>>, kinds |-> <<a, b>>, ax |-> 0, neg |-> FALSE, s |-> s, c |-> c] :
                  op \in Plain, a \in Kinds(sh), b \in Kinds(sh), s \in Streams, c \in 1..4} : sh \in LossShapes}
ClassReqs == UNION {{[m |-> "class", op |-> op, shapes |-> <<w[1], Drop1(w[1], w[2] + 1)>>, kinds |-> <<a, b>>, ax |-> w[2], neg |-> neg, s |-> s, c |-> c] :
                  op \in {"ce", "nll"}, a \in Kinds(w[1]), b \in Kinds(Drop1(w[1], w[2] + 1)), neg \in BOOLEAN, s \in Streams, c \in 1..2} : w \in ClassShapes}
CosReqs == UNION {{[m |-> "cos", op |-> "cos", shapes |-> <<sh, sh, SubSeq(sh, 1, Len(sh) - 1)>>, kinds |-> <<a, b, k>>, ax |-> 0, neg |-> FALSE, s |-> s, c |-> c] :
                  a \in Kinds(sh), b \in Kinds(sh), k \in Kinds(SubSeq(sh, 1, Len(sh) - 1)), s \in Streams, c \in 1..3} : sh \in {<<3, 4>>, <<5>>, <<2, 3, 2>>}}
LReqs == CASE Mode = "plain" -> PlainReqs [] Mode = "class" -> ClassReqs [] Mode = "cos" -> CosReqs
\* the parameter of the loss (threshold, clamp, margin); choice 1 of bce: none, the default clamp
Arg(q) == CASE q.op \in {"huber", "smooth_l1"} -> <<Q(9, 8), Q(5, 8), Q(17, 8), Q(7, 8)>>[q.c] [] q.op = "bce" -> <<Q(1, 10000000), Q(1, 256), Q(1, 64), Q(1, 8)>>[q.c]
            [] q.op = "cos" -> <<0, Q(1, 4), Q(-1, 4)>>[q.c] [] OTHER -> 0
LPt(q, i, k) == LET h == Hash(q.s + 50 * i + 7 * q.c, k, 1000) IN
    CASE q.op \in {"mse", "mae", "huber", "smooth_l1"} -> IF i = 2 /\ h % 9 = 0 THEN Q(((h \div 9) % 9) - 4, 1) ELSE Q((h % 33) - 16, 4)
      [] q.op = "bce" /\ i = 1 -> IF q.c > 1 /\ h % 5 = 0 THEN (h \div 5) % 2 ELSE Q(2 * (h % 16) + 1, 32)
      [] q.op = "bce" -> IF h % 3 = 0 THEN Q((h \div 3) % 5, 4) ELSE h % 2
      [] q.op = "bcel" /\ i = 1 -> IF h % 5 = 0 THEN Q(((h \div 5) % 361) - 180, 1) ELSE Q((h % 41) - 20, 4)
      [] q.op = "bcel" -> IF h % 3 = 0 THEN Q((h \div 3) % 5, 4) ELSE h % 2
      [] q.op = "kl" /\ i = 2 -> IF h % 4 = 0 THEN 0 ELSE Q(h % 9, 8)
      [] q.op = "kllog" /\ i = 2 -> Q(0 - (h % 25), 4)
      [] q.op \in {"kl", "kllog"} -> Q(0 - (h % 33), 4)
      [] q.op = "ce" /\ i = 1 -> IF q.c = 2 THEN Q((h % 301) - 150, 1) ELSE Q((h % 41) - 20, 4)
      [] q.op = "nll" /\ i = 1 -> Q(0 - (h % 33), 4)
      [] q.op \in {"ce", "nll"} -> h % q.shapes[1][q.ax + 1]
      [] q.op = "cos" /\ i = 3 -> 1 - 2 * (h % 2)
      [] q.op = "cos" -> Q(2 * (h % 24) - 23, 8)
Sum(xs) == <<"sum">> \o xs
Each(t, f(_)) == [k \in 1..Len(t.d) |-> f(k)]
Mean(xs) == Dv(Sum(xs), Len(xs))
Half(x) == Dv(x, 2)
Sq(x) == Mul(x, x)
AbsT(x) == F1("abs", x)
Diff(o, k) == Sub(o[1].t.d[k], o[2].t.d[k])
\* per-element losses
Elem1(q, o, k) == LET x == o[1].t.d[k] y == o[2].t.d[k] a == Arg(q) z == AbsT(Sub(x, y)) IN
    CASE q.op = "mse" -> Sq(Sub(x, y))
      [] q.op = "mae" -> z
      [] q.op = "huber" -> If(<<"<=", z, a>>, Half(Sq(Sub(x, y))), Sub(Mul(a, z), Half(Sq(a))))
      [] q.op = "smooth_l1" -> If(<<"<", z, a>>, Dv(Half(Sq(Sub(x, y))), a), Sub(z, Half(a)))
      [] q.op = "bce" -> LET p == <<"max", a, <<"min", Sub(1, a), x>>>> IN F1("neg", Add(Mul(y, F1("ln", p)), Mul(Sub(1, y), F1("ln", Sub(1, p)))))
      [] q.op = "bcel" -> Sub(SoftPlus(x), Mul(x, y))
      [] q.op = "kl" -> Sub(If(<<"<=", y, 0>>, 0, Mul(y, F1("ln", y))), Mul(y, x))
      [] q.op = "kllog" -> Mul(F1("exp", y), Sub(y, x))
Classes(q, o, cls) == LET sc == o[1].t n == sc.s[q.ax + 1] IN
    Build(o[2].t.s, LAMBDA ix : LET row == [j \in 1..n |-> At(sc, SubSeq(ix, 1, q.ax) \o <<j - 1>> \o SubSeq(ix, q.ax + 1, Len(ix)))]
                                   x == row[At(cls, ix) + 1] IN
        IF q.op = "nll" THEN F1("neg", x) ELSE F1("ln", Sum([j \in 1..n |-> F1("exp", Sub(row[j], x))])))
CosEach(q, o) == LET n == q.shapes[1][Len(q.shapes[1])] IN
    Build(o[3].t.s, LAMBDA ix : LET A(j) == At(o[1].t, Append(ix, j - 1)) B(j) == At(o[2].t, Append(ix, j - 1)) IN
        LET c == Dv(Sum([j \in 1..n |-> Mul(A(j), B(j))]),
                    Add(Mul(F1("sqrt", Sum([j \in 1..n |-> Sq(A(j))])), F1("sqrt", Sum([j \in 1..n |-> Sq(B(j))]))), Dv(Q(1, 10000), 10000))) IN
        If(<<"=", At(o[3].t, ix), 1>>, Sub(1, c), <<"max", 0, Sub(c, Arg(q))>>))
LossOf(q, so, o) == CASE q.m = "plain" -> (LET es == TLCEval(Each(so[1].t, LAMBDA k : Elem1(q, so, k))) IN
                           IF q.op \in {"mae", "huber", "kl", "kllog"} THEN Dv(Sum(es), q.shapes[1][1]) ELSE Mean(es))
                      [] q.m = "class" -> Mean(TLCEval(Classes(q, so, o[2].t)).d)
                      [] q.m = "cos" -> Mean(TLCEval(CosEach(q, so)).d)
LTags(q, o) == [i \in 1..Len(o) |-> IF q.m = "class" /\ i = 2 THEN "i" ELSE "n"]
\* the class indices stay numbers; everything else becomes variables, numbered through all operands
SymbC(q, os) == IF q.m = "class" THEN <<Symb(<<os[1]>>)[1], os[2]>> ELSE Symb(os)
LInit == req \in LReqs /\ res = <<>> /\ todo = 1
LNext == /\ todo = 1
         /\ todo' = 0
         /\ LET o == TLCEval([i \in 1..Len(req.shapes) |-> Opnd(req.kinds[i], req.shapes[i], LAMBDA k : LPt(req, i, k))])
                so == TLCEval(SymbC(req, o)) l == TLCEval(LossOf(req, so, o))
                p == [name |-> req.op, c |-> Arg(req), def |-> IF req.op = "bce" /\ req.c = 1 THEN TRUE ELSE FALSE,
                      dim |-> IF req.neg THEN req.ax - Len(req.shapes[1]) ELSE req.ax]
                asks == IF req.m = "plain" THEN <<TRUE, Hash(req.s, 5, 3) = 0>> ELSE IF req.m = "class" THEN <<TRUE, FALSE>> ELSE <<TRUE, Hash(req.s, 6, 3) > 0, FALSE>>
                case == ProgT(so, LTags(req, o), "loss", p, <<[s |-> <<>>, d |-> <<l>>]>>, [ask |-> asks, vals |-> Vals(o), fwd |-> TRUE]) IN
            /\ res' = <<>>
            /\ Export([loss |-> <<[at |-> OutAt(case, 1), w |-> <<1>>]>>] @@ case)
         /\ UNCHANGED req
LSpec == LInit /\ [][LNext]_<<vars, todo>>
\* sanity of the formulas that can be checked in the model: a loss has one value
LShaped == todo = 0 => res = <<>>
=============================================================================
