------------------------------ MODULE MCModule ------------------------------
(* N03. A module is a state (parameters; running statistics; the mode) and a function. A
   program builds it with given parameters and calls it; what every call returns is a formula
   over the elements of the inputs and the parameters, and so are the gradients they receive.
   A "def" step only names intermediate values of the definition (a hidden state, a mean). *)
EXTENDS Algebra, MCMath, Grad
VARIABLES out
MPt(s, i, k) == Q(2 * Hash(s + 50 * i, k, 24) - 23, 16)
\* ---- building programs ----
StepLens(steps) == SumSeq([j \in 1..Len(steps) |-> SumSeq([i \in 1..Len(steps[j].outs) |-> Len(steps[j].outs[i].d)])])
Begin(os, tags, ps, cfg) == LET w == TLCEval(OpSteps(os, tags, 1, Len(os))) IN
    [steps |-> Append(w.steps, [op |-> "build", p |-> cfg, in |-> ps, outs |-> <<>>]), n |-> Len(Vals(os)) + StepLens(w.steps),
     e |-> Len(os) + Len(w.steps), at |-> w.at, loss |-> <<>>]
Ref(n, t) == [s |-> t.s, d |-> [k \in 1..Len(t.d) |-> <<"v", n + k - 1>>]]
DefS(st, t0) == LET t == TLCEval(t0) IN
    [st |-> [st EXCEPT !.steps = Append(@, [op |-> "def", p |-> NoP, in |-> <<>>, outs |-> <<t>>]), !.n = @ + Len(t.d), !.e = @ + 1], t |-> Ref(st.n, t)]
\* one call returning outs; those in which (1-based) enter the loss
CallS(st, p, ins, outs, which, s) ==
    [st EXCEPT !.steps = Append(@, [op |-> "call", p |-> p, in |-> [i \in 1..Len(ins) |-> st.at[ins[i]]], outs |-> TLCEval(outs)]),
               !.n = @ + SumSeq([i \in 1..Len(outs) |-> Len(outs[i].d)]), !.e = @ + Len(outs),
               !.loss = @ \o [j \in 1..Len(which) |-> [at |-> st.e + which[j] - 1, w |-> [k \in 1..Len(outs[which[j]].d) |-> Wt(s + st.e, j, k)]]]]
Finish(st, o, tags, ask) == [leaves |-> [k \in 1..Len(o) |-> Tag(o[k].leaf, tags[k])], steps |-> st.steps, loss |-> st.loss,
                             vals |-> <<>>, ask |-> ask, fwd |-> TRUE]
\* ---- helpers on term tensors ----
MSum(xs) == <<"sum">> \o xs
MMean(xs) == Dv(MSum(xs), Len(xs))
Sqr(x) == Mul(x, x)
ZipB(a, b, F(_, _)) == Build(a.s, LAMBDA ix : F(At(a, ix), At(b, BIdx(ix, b.s))))
AlongAx(t, b, ax, F(_, _)) == Build(t.s, LAMBDA ix : F(At(t, ix), b.d[ix[ax] + 1]))
AddAx(t, b, ax) == AlongAx(t, b, ax, LAMBDA x, y : Add(x, y))
MatT(w) == Transpose(w, -2, -1)
Lin(x, w, bs) == LET y == TLCEval(MatMul(x, MatT(w))) IN IF bs = <<>> THEN y ELSE AddAx(y, bs[1], Len(y.s))
KindOf(sh, s) == LET K == SortedSeq({i \in 1..7 : <<"plain", "off", "step", "trans", "transoff", "perm", "plain">>[i] \in KindsFor(sh)}) IN
    <<"plain", "off", "step", "trans", "transoff", "perm", "plain">>[K[1 + Hash(s, Len(sh), Len(K))]]
\* operands: xs in any layout, parameters fresh
Ins(shapes, s) == [i \in 1..Len(shapes) |-> Opnd(KindOf(shapes[i], s + 7 * i), shapes[i], LAMBDA k : MPt(s, i, k))]
Pars(shapes, s) == [i \in 1..Len(shapes) |-> Opnd("plain", shapes[i], LAMBDA k : MPt(s, 20 + i, k))]
Span(a, b) == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + i - 1]
\* a module called once on its inputs: shapes of inputs and parameters, the definition D(xs, ps) of its outputs
Once(cfg, mode, xsh, psh, s, D(_, _, _)) ==
    LET o == TLCEval(Ins(xsh, s) \o Pars(psh, s)) so == TLCEval(Symb(o)) nx == Len(xsh)
        st == Begin(so, Ns(o), Span(nx, nx + Len(psh) - 1), cfg)
        r == TLCEval(D(st, [i \in 1..nx |-> so[i].t], [i \in 1..Len(psh) |-> so[nx + i].t]))
        f == CallS(r.st, r.p @@ [mode |-> mode, f |-> "forward"], Span(1, nx), r.outs, r.which, s)
    IN [vals |-> Vals(o)] @@ Finish(f, so, Ns(o), [i \in 1..Len(o) |-> i > nx \/ nx > 1 \/ psh = <<>> \/ Hash(s, 3, 5) > 0])
Simple(st, y) == [st |-> st, outs |-> <<TLCEval(y)>>, which |-> <<1>>, p |-> NoP]
\* ---- linear ----
LinReqs == {[f |-> "linear", a |-> <<i, j, k>>, b |-> b, s |-> s] : i \in {1, 2, 4}, j \in {1, 3}, k \in 1..4, b \in BOOLEAN, s \in Streams}
LinCase(q) == LET n == q.a[1] m == q.a[2] xs == <<<<n>>, <<2, n>>, <<2, 3, n>>, <<1, n>>>>[q.a[3]] IN
    Once([name |-> "linear", in |-> n, out |-> m, bias |-> q.b], IF q.s % 2 = 0 THEN "t" ELSE "e", <<xs>>, <<<<m, n>>>> \o (IF q.b THEN <<<<m>>>> ELSE <<>>), q.s,
         LAMBDA st, x, p : Simple(st, Lin(x[1], p[1], Tail(p))))
\* ---- convolutions ----
XSp(r) == <<<<6>>, <<4, 5>>, <<3, 2, 4>>>>[r]
ConvAll == {[f |-> IF tr = 1 THEN "convt" ELSE "conv", a |-> <<r, ci, co, k, st, p, d, op>>, b |-> b, s |-> s] :
                r \in 1..3, tr \in {0, 1}, ci \in {1, 2}, co \in {1, 3}, k \in 1..3, st \in 1..2, p \in 0..1, d \in 1..2, op \in 0..1, b \in BOOLEAN, s \in Streams}
ConvOk(q) == LET r == q.a[1] IN
    IF q.f = "conv" THEN q.a[8] = 0 /\ \A i \in 1..r : XSp(r)[i] + 2 * q.a[6] - q.a[7] * (q.a[4] - 1) - 1 >= 0
    ELSE q.a[8] < Max2(q.a[5], q.a[7]) /\ \A i \in 1..r : ConvTOut(XSp(r)[i], q.a[4], q.a[5], q.a[6], q.a[8], q.a[7]) >= 1
ConvCase(q) == LET r == q.a[1] ci == q.a[2] co == q.a[3] ks == [i \in 1..r |-> q.a[4]] IN
    Once([name |-> q.f, r |-> r, in |-> ci, out |-> co, k |-> q.a[4], stride |-> q.a[5], pad |-> q.a[6], dil |-> q.a[7], opad |-> q.a[8], bias |-> q.b], "t",
         <<<<1 + Hash(q.s, 1, 2), ci>> \o XSp(r)>>, <<(IF q.f = "conv" THEN <<co, ci>> ELSE <<ci, co>>) \o ks>> \o (IF q.b THEN <<<<co>>>> ELSE <<>>), q.s,
         LAMBDA st, x, p : Simple(st, LET y == TLCEval(IF q.f = "conv" THEN Conv(x[1], p[1], q.a[5], q.a[6], q.a[7]) ELSE ConvT(x[1], p[1], q.a[5], q.a[6], q.a[8], q.a[7]))
                                      IN IF q.b THEN AddAx(y, p[2], 2) ELSE y))
\* ---- pooling ----
PoolAll == {[f |-> f, a |-> <<r, k, st, p>>, b |-> FALSE, s |-> s] : f \in {"avg", "max", "adavg", "admax", "gavg", "gmax", "frac", "fracr"}, r \in 1..3, k \in 1..3, st \in 1..3, p \in 0..1, s \in Streams}
HalfOk(n, o) == o \in {1, 2, 4} \/ \A i \in 1..o : (2 * n * i + o) % (2 * o) # 0
PSp(q) == LET r == q.a[1] IN IF q.f = "fracr" THEN <<<<6>>, <<4, 6>>, <<2, 4, 2>>>>[r] ELSE IF q.s % 2 = 0 THEN <<<<7>>, <<5, 4>>, <<3, 4, 3>>>>[r] ELSE XSp(r)
POut(q) == [i \in 1..q.a[1] |-> <<q.a[2], q.a[3], q.a[4] + 1>>[i]]
PoolOk(q) == LET r == q.a[1] n == PSp(q) IN
    CASE q.f \in {"avg", "max"} -> q.a[4] * 2 <= q.a[2] /\ \A i \in 1..r : n[i] + 2 * q.a[4] >= q.a[2]
      [] q.f \in {"adavg", "admax"} -> (\A i \in 1..r : POut(q)[i] <= n[i]) /\ (r > 1 \/ q.a[3] = 1) /\ (r > 2 \/ q.a[4] = 0)
      [] q.f = "frac" -> r > 1 /\ (r > 2 \/ q.a[4] = 0) /\ (\A i \in 1..r : POut(q)[i] <= n[i] /\ HalfOk(n[i], POut(q)[i]))
      [] q.f = "fracr" -> r > 1 /\ q.a[2] = 1 /\ q.a[3] = 1 /\ q.a[4] = 0
      [] OTHER -> q.a[2] = 1 /\ q.a[3] = 1 /\ q.a[4] = 0
Win1(x, k, s, p, red) == Window(x, <<1, 1>> \o k, <<1, 1>> \o s, <<<<0, 0>>, <<0, 0>>>> \o p, LAMBDA g :
    IF red = "max" THEN <<"maxof">> \o g ELSE Dv(MSum(g), Prod(k)))
FracAt(n, o, i) == IF i = o THEN n ELSE (2 * n * i + o) \div (2 * o)
Frac3(x, o) == LET r == Len(o) n == Spat(x.s) IN Build(SubQ(x.s, 2) \o o, LAMBDA ix :
    LET lo == TLCEval([i \in 1..r |-> FracAt(n[i], o[i], ix[i + 2])]) ln == TLCEval([i \in 1..r |-> FracAt(n[i], o[i], ix[i + 2] + 1) - lo[i]]) IN
    <<"maxof">> \o [k \in 1..Prod(ln) |-> LET u == Unrav(k - 1, ln) IN At(x, SubQ(ix, 2) \o [i \in 1..r |-> lo[i] + u[i]])])
PoolCase(q) == LET r == q.a[1] n == PSp(q) o == IF q.f = "fracr" THEN [i \in 1..r |-> n[i] \div 2] ELSE POut(q) R(v) == [i \in 1..r |-> v] IN
    Once([name |-> q.f, r |-> r, k |-> q.a[2], stride |-> q.a[3], pad |-> q.a[4], o |-> POut(q)], "t", <<<<2, 1 + Hash(q.s, 2, 2)>> \o n>>, <<>>, q.s,
         LAMBDA st, x, p : Simple(st,
             CASE q.f \in {"avg", "max"} -> Win1(x[1], R(q.a[2]), R(q.a[3]), R(<<q.a[4], q.a[4]>>), q.f)
               [] q.f \in {"adavg", "admax"} -> LET d == [i \in 1..r |-> n[i] \div o[i]] IN
                      Win1(x[1], [i \in 1..r |-> n[i] - (o[i] - 1) * d[i]], d, R(<<0, 0>>), IF q.f = "admax" THEN "max" ELSE "avg")
               [] q.f \in {"gavg", "gmax"} -> Win1(x[1], n, n, R(<<0, 0>>), IF q.f = "gmax" THEN "max" ELSE "avg")
               [] OTHER -> Frac3(x[1], o)))
\* ---- activations, and the modules that do nothing or something fixed in evaluation mode ----
Acts == <<"relu", "sigmoid", "tanh", "gelu", "softplus", "silu", "swish", "mish", "leaky_relu", "elu", "prelu", "rrelu", "dropout", "attdrop">>
ActC == <<Q(1, 8), 1, Q(3, 2), 0>>
ActReqs == {[f |-> Acts[i], a |-> <<c, sh>>, b |-> FALSE, s |-> s] : i \in 1..Len(Acts), c \in 1..4, sh \in 1..4, s \in Streams}
ActCase(q) == LET sh == <<<<>>, <<5>>, <<3, 4>>, <<2, 3, 2>>>>[q.a[2]] c == ActC[q.a[1]] IN
    Once([name |-> q.f, c |-> c, c2 |-> Add(c, Q(1, 4))], IF q.f \in {"rrelu", "dropout", "attdrop"} THEN "e" ELSE IF q.s % 2 = 0 THEN "t" ELSE "e", <<sh>>, <<>>, q.s,
         LAMBDA st, x, p : Simple(st, Map(x[1], LAMBDA v :
             CASE q.f \in {"dropout", "attdrop"} -> v [] q.f = "rrelu" -> If(<<"<", 0, v>>, v, Mul(Add(c, Q(1, 8)), v))
               [] q.f \in {"leaky_relu", "elu", "prelu"} -> Bin2(q.f, v, c) [] OTHER -> Def(q.f, v))))
\* ---- normalisation ----
Spread(x, axes, F(_)) == Red(x, axes, TRUE, F)
Center(st, x, axes) == LET m == DefS(st, Spread(x, axes, LAMBDA g : MMean(g))) IN DefS(m.st, ZipB(x, m.t, LAMBDA a, b : Sub(a, b)))
Normed(st, x, axes, eps) == LET c == Center(st, x, axes) v == DefS(c.st, Spread(c.t, axes, LAMBDA g : MMean([i \in 1..Len(g) |-> Sqr(g[i])])))
    IN DefS(v.st, ZipB(c.t, v.t, LAMBDA a, b : Dv(a, F1("sqrt", Add(b, eps)))))
\* gamma and beta along the channels (axis 2), or along the last axes
Affine(y, p, chan) == IF p = <<>> THEN y
    ELSE IF chan THEN AddAx(TLCEval(AlongAx(y, p[1], 2, LAMBDA a, g : Mul(a, g))), p[2], 2)
    ELSE LET z == TLCEval(ZipB(y, p[1], LAMBDA a, g : Mul(a, g))) IN IF Len(p) = 1 THEN z ELSE ZipB(z, p[2], LAMBDA a, g : Add(a, g))
Eps == <<Q(1, 1024), Q(1, 8)>>
NormReqs == {[f |-> f, a |-> <<e, v>>, b |-> b, s |-> s] : f \in {"ln", "gn", "in1", "in2", "in3", "rms"}, e \in 1..2, v \in 1..4, b \in BOOLEAN, s \in Streams}
NormX(q) == LET v == q.a[2] IN
    CASE q.f \in {"ln", "rms"} -> <<<<4>>, <<2, 3>>, <<2, 2, 3>>, <<2, 2, 3>>>>[v]
      [] q.f = "gn" -> <<<<2, 4>>, <<2, 4, 2>>, <<1, 4, 2, 2>>, <<2, 3, 2>>>>[v]
      [] q.f = "in1" -> <<2, 2, v + 1>> [] q.f = "in2" -> <<1, 2, v, 2>> [] q.f = "in3" -> <<1, 2, v, 2, 1>>
NormP(q) == LET x == NormX(q) IN CASE q.f \in {"ln", "rms"} -> IF q.a[2] = 4 THEN LastN(x, 2) ELSE IF q.a[2] = 1 THEN x ELSE LastN(x, 1) [] OTHER -> <<x[2]>>
Groups(q) == <<2, 4, 1, 3>>[q.a[2]]
NormCase(q) == LET x == NormX(q) r == Len(x) np == Len(NormP(q)) aff == q.b \/ q.f = "rms" last == [i \in 1..np |-> r - np + i - 1] IN
    Once([name |-> q.f, shape |-> NormP(q), groups |-> Groups(q), eps |-> Eps[q.a[1]], affine |-> aff, init |-> IF aff THEN <<1, 0>> ELSE <<>>], IF q.s % 2 = 0 THEN "t" ELSE "e", <<x>>,
         IF ~aff THEN <<>> ELSE IF q.f = "rms" THEN <<NormP(q)>> ELSE <<NormP(q), NormP(q)>>, q.s,
         LAMBDA st, xs, p :
            CASE q.f = "ln" -> (LET y == Normed(st, xs[1], last, Eps[q.a[1]]) IN Simple(y.st, Affine(y.t, p, FALSE)))
              [] q.f = "rms" -> (LET v == DefS(st, Spread(xs[1], last, LAMBDA g : MMean([i \in 1..Len(g) |-> Sqr(g[i])]))) IN
                    Simple(v.st, Affine(TLCEval(ZipB(xs[1], v.t, LAMBDA a, b : Dv(a, F1("sqrt", Add(b, Eps[q.a[1]]))))), p, FALSE)))
              [] q.f = "gn" -> (LET g == Groups(q) y == Normed(st, [s |-> <<x[1], g, x[2] \div g>> \o SubSeq(x, 3, r), d |-> xs[1].d], Span(2, r), Eps[q.a[1]]) IN
                    Simple(y.st, Affine([s |-> x, d |-> y.t.d], p, TRUE)))
              [] OTHER -> (LET y == Normed(st, xs[1], Span(2, r - 1), Eps[q.a[1]]) IN Simple(y.st, Affine(y.t, p, TRUE))))
\* ---- batch normalisation: a history of calls in training and evaluation mode ----
Hists == <<<<"t">>, <<"e">>, <<"t", "e">>, <<"t", "t", "e">>, <<"t", "e", "t", "e">>, <<"e", "t", "t">>>>
Moms == <<Q(1, 4), Q(7, 8), 0, 1>>
BnReqs == {[f |-> "bn", a |-> <<d, e, h, m>>, b |-> b, s |-> s] : d \in 1..4, e \in 1..2, h \in 1..6, m \in 1..4, b \in BOOLEAN, s \in Streams}
BnX(d, j) == <<<<2 + (j % 2), 2>>, <<2, 2, 2 + (j % 2)>>, <<2, 2, 1 + (j % 2), 2>>, <<1, 2, 2, 1 + (j % 2), 2>>>>[d]
BnAxes(d) == <<<<0>>, <<0, 2>>, <<0, 2, 3>>, <<0, 2, 3, 4>>>>[d]
\* the running statistics are numbers, not functions of what is differentiated
RECURSIVE BnRun(_, _, _, _, _, _, _, _)
BnRun(q, j, st, rm, rv, xs, vx, p) ==
    IF j > Len(Hists[q.a[3]]) THEN st
    ELSE LET ax == BnAxes(q.a[1]) e == Eps[q.a[2]] mo == Moms[q.a[4]] mode == Hists[q.a[3]][j]
             Put(st1, y) == CallS(st1, [mode |-> mode, f |-> "forward"], <<j>>, <<TLCEval(Affine(y, p, TRUE))>>, <<1>>, q.s + j)
         IN IF mode = "t"
            THEN LET y == Normed(st, xs[j], ax, e) c == Center(y.st, vx[j], ax)
                     m == DefS(c.st, Spread(vx[j], ax, LAMBDA g : MMean(g)))
                     v == DefS(m.st, Spread(c.t, ax, LAMBDA g : MMean([i \in 1..Len(g) |-> Sqr(g[i])])))
                     Mix(old, new) == ZipB([s |-> old.s, d |-> old.d], [s |-> old.s, d |-> new.d], LAMBDA a, b : Add(Mul(mo, a), Mul(Sub(1, mo), b)))
                     nm == DefS(v.st, Mix(rm, m.t)) nv == DefS(nm.st, Mix(rv, v.t))
                 IN BnRun(q, j + 1, Put(nv.st, y.t), nm.t, nv.t, xs, vx, p)
            ELSE LET y == DefS(st, Build(xs[j].s, LAMBDA ix : Dv(Sub(At(xs[j], ix), rm.d[ix[2] + 1]), F1("sqrt", Add(rv.d[ix[2] + 1], e)))))
                 IN BnRun(q, j + 1, Put(y.st, y.t), rm, rv, xs, vx, p)
BnCase(q) == LET h == Hists[q.a[3]] nx == Len(h) psh == IF q.b THEN <<<<2>>, <<2>>>> ELSE <<>>
                 o == TLCEval(Ins([j \in 1..nx |-> BnX(q.a[1], j)], q.s) \o Pars(psh, q.s)) so == TLCEval(Symb(o))
                 st == Begin(so, Ns(o), Span(nx, nx + Len(psh) - 1), [name |-> "bn", d |-> q.a[1], c |-> 2, eps |-> Eps[q.a[2]], momentum |-> Moms[q.a[4]], affine |-> q.b,
                                                                   init |-> IF q.b THEN <<1, 0>> ELSE <<>>])
                 f == BnRun(q, 1, st, [s |-> <<2>>, d |-> <<0, 0>>], [s |-> <<2>>, d |-> <<1, 1>>], [j \in 1..nx |-> so[j].t], [j \in 1..nx |-> o[j].t],
                            [i \in 1..Len(psh) |-> so[nx + i].t])
             IN [vals |-> Vals(o)] @@ Finish(f, so, Ns(o), [i \in 1..Len(o) |-> TRUE])
\* ---- embedding ----
EmbReqs == {[f |-> "embed", a |-> <<pad, mn, nt, ix, how>>, b |-> FALSE, s |-> s] : pad \in {-1, 0, 2}, mn \in 1..3, nt \in 1..3, ix \in 1..3, how \in 1..3, s \in Streams}
EmbOk(q) == (q.a[5] # 1 => q.a[1] = -1 /\ q.a[2] = 1) /\ (q.a[2] = 1 => q.a[3] = 1)
EmbCase(q) == LET ish == <<<<4>>, <<2, 3>>, <<1, 2, 2>>>>[q.a[4]] mn == <<0, Q(1, 2), Q(5, 4)>>[q.a[2]] nt == <<2, 1, 3>>[q.a[3]] freeze == q.a[5] = 3
                  o == TLCEval(<<Opnd(KindOf(ish, q.s), ish, LAMBDA k : Hash(q.s, k, 5)),
                                 Opnd("plain", <<5, 3>>, LAMBDA k : IF (k - 1) \div 3 = 3 THEN (IF k % 3 = 0 /\ q.s % 2 = 0 THEN 1 ELSE 0) ELSE MPt(q.s, 21, k))>>)
                  so == TLCEval(<<o[1], Rebuild(o[2], [k \in 1..15 |-> <<"v", Len(o[1].leaf.d) + k - 1>>])>>)
                  tags == <<"i", "n">>
                  st == Begin(so, tags, <<1>>, [name |-> "embed", num |-> 5, dim |-> 3, padding |-> q.a[1], maxnorm |-> mn, normtype |-> nt, how |-> q.a[5]])
                  W(r) == [j \in 1..3 |-> so[2].t.d[3 * r + j]]
                  Nrm(w) == IF nt = 2 THEN F1("sqrt", MSum([j \in 1..3 |-> Sqr(w[j])])) ELSE IF nt = 1 THEN MSum([j \in 1..3 |-> F1("abs", w[j])])
                            ELSE <<"pow", MSum([j \in 1..3 |-> <<"pow", F1("abs", w[j]), 3>>]), Q(1, 3)>>
                  Zero(w) == <<"=", MSum([j \in 1..3 |-> F1("abs", w[j])]), 0>>
                  Row(r) == IF r = q.a[1] THEN <<0, 0, 0>>
                            ELSE IF q.a[2] = 1 THEN W(r) ELSE LET w == W(r) IN [j \in 1..3 |-> Mul(w[j], If(Zero(w), 1, <<"min", 1, Dv(mn, Nrm(w))>>))]
                  y == TLCEval(Build(ish \o <<3>>, LAMBDA ix : Row(At(o[1].t, SubQ(ix, Len(ish))))[ix[Len(ish) + 1] + 1]))
                  f == CallS(st, [mode |-> "t", f |-> "forward"], <<1>>, <<y>>, IF freeze THEN <<>> ELSE <<1>>, q.s)
              IN [vals |-> Vals(o)] @@ Finish(f, so, tags, <<FALSE, TRUE>>)
\* ---- recurrent ----
RnnReqs == {[f |-> f, a |-> <<n, h, l, v, non, t>>, b |-> b, s |-> s] : f \in {"rnn", "lstm", "gru"}, n \in {1, 3}, h \in {1, 2}, l \in 1..3, v \in 1..5, non \in 1..2, t \in {1, 3}, b \in BOOLEAN, s \in Streams}
RnnOk(q) == (q.f # "rnn" => q.a[5] = 1) /\ (q.a[3] = 3 => q.a[6] = 1) /\ (q.a[4] = 5 => q.a[3] = 1 /\ q.a[6] = 1)
NG(f) == CASE f = "rnn" -> 1 [] f = "lstm" -> 4 [] f = "gru" -> 3
Cols(t, g, h) == [s |-> <<t.s[1], h>>, d |-> [k \in 1..(t.s[1] * h) |-> t.d[((k - 1) \div h) * t.s[2] + g * h + ((k - 1) % h) + 1]]]
Z2(a, b, F(_, _)) == [s |-> a.s, d |-> [k \in 1..Len(a.d) |-> F(a.d[k], b.d[k])]]
Map1(a, F(_)) == [s |-> a.s, d |-> [k \in 1..Len(a.d) |-> F(a.d[k])]]
\* one step of one layer; p = <<w_ih, w_hh>> or with <<b_ih, b_hh>>
CellStep(q, st, x, h, c, p) ==
    LET H == q.a[2] i == DefS(st, Lin(x, p[1], IF Len(p) = 4 THEN <<p[3]>> ELSE <<>>)) g == DefS(i.st, Lin(h, p[2], IF Len(p) = 4 THEN <<p[4]>> ELSE <<>>))
        both == Z2(i.t, g.t, LAMBDA a, b : Add(a, b))
    IN CASE q.f = "rnn" -> (LET y == DefS(g.st, Map1(both, LAMBDA v : IF q.a[5] = 1 THEN F1("tanh", v) ELSE If(<<"<", 0, v>>, v, 0))) IN [st |-> y.st, h |-> y.t, c |-> c])
         [] q.f = "lstm" -> (LET S(k) == Map1(Cols(both, k, H), LAMBDA v : Sigm(v)) T(k) == Map1(Cols(both, k, H), LAMBDA v : F1("tanh", v))
                                cn == DefS(g.st, Z2(Z2(S(1), c, LAMBDA a, b : Mul(a, b)), Z2(S(0), T(2), LAMBDA a, b : Mul(a, b)), LAMBDA a, b : Add(a, b)))
                                hn == DefS(cn.st, Z2(S(3), cn.t, LAMBDA a, b : Mul(a, F1("tanh", b)))) IN [st |-> hn.st, h |-> hn.t, c |-> cn.t])
         [] q.f = "gru" -> (LET r == DefS(g.st, Map1(Cols(both, 0, H), LAMBDA v : Sigm(v))) z == DefS(r.st, Map1(Cols(both, 1, H), LAMBDA v : Sigm(v)))
                               n == DefS(z.st, Z2(Cols(i.t, 2, H), Z2(r.t, Cols(g.t, 2, H), LAMBDA a, b : Mul(a, b)), LAMBDA a, b : F1("tanh", Add(a, b))))
                               hn == DefS(n.st, Z2(Z2(z.t, n.t, LAMBDA a, b : Mul(Sub(1, a), b)), Z2(z.t, h, LAMBDA a, b : Mul(a, b)), LAMBDA a, b : Add(a, b)))
                           IN [st |-> hn.st, h |-> hn.t, c |-> c])
RECURSIVE LayersRun(_, _, _, _, _, _, _)
LayersRun(q, st, x, hs, cs, ps, l) == IF l > Len(ps) THEN [st |-> st, x |-> x, hs |-> hs, cs |-> cs]
    ELSE LET u == CellStep(q, st, x, hs[l], cs[l], ps[l]) IN LayersRun(q, u.st, u.h, [hs EXCEPT ![l] = u.h], [cs EXCEPT ![l] = u.c], ps, l + 1)
RECURSIVE SeqRun(_, _, _, _, _, _, _, _)
SeqRun(q, st, xt, hs, cs, ps, t, acc) == IF t > Len(xt) THEN [st |-> st, ys |-> acc, hs |-> hs, cs |-> cs]
    ELSE LET u == LayersRun(q, st, xt[t], hs, cs, ps, 1) IN SeqRun(q, u.st, xt, u.hs, u.cs, ps, t + 1, Append(acc, u.x))
StackT(ts) == [s |-> <<Len(ts)>> \o ts[1].s, d |-> FoldLeft(LAMBDA a, t : a \o t.d, <<>>, ts)]
Flip01(t) == Permute(t, <<1, 0, 2>>)
Nth(t, i) == [s |-> Tail(t.s), d |-> SubSeq(t.d, i * Prod(Tail(t.s)) + 1, (i + 1) * Prod(Tail(t.s)))]
\* v = 1, 2: the output alone; 3: with the final state; 4: from a given state; 5: one step of a cell. Batch first when v = 2 or the stream is odd
RnnCase(q) == LET n == q.a[1] h == q.a[2] L == q.a[3] v == q.a[4] T == q.a[6] B == 2 g == NG(q.f) lstm == q.f = "lstm"
                  bf == v = 2 \/ (v \in {3, 4} /\ q.s % 2 = 1)
                  xsh == IF v = 5 THEN <<<<B, n>>, <<B, h>>>> \o (IF lstm THEN <<<<B, h>>>> ELSE <<>>)
                         ELSE <<IF bf THEN <<B, T, n>> ELSE <<T, B, n>>>> \o (IF v = 4 THEN (IF lstm THEN <<<<L, B, h>>, <<L, B, h>>>> ELSE <<<<L, B, h>>>>) ELSE <<>>)
                  psh == FoldLeft(LAMBDA a, l : a \o <<<<g * h, IF l = 1 THEN n ELSE h>>, <<g * h, h>>>> \o (IF q.b THEN <<<<g * h>>, <<g * h>>>> ELSE <<>>), <<>>, Span(1, L))
                  m == IF q.b THEN 4 ELSE 2
                  z == [s |-> <<B, h>>, d |-> [k \in 1..(B * h) |-> 0]] IN
    Once([name |-> q.f, cell |-> v = 5, in |-> n, hidden |-> h, layers |-> L, bias |-> q.b, bf |-> bf, non |-> IF q.a[5] = 1 THEN "tanh" ELSE "relu"], "t", xsh, psh, q.s,
         LAMBDA st, x, p :
            LET ps == [l \in 1..L |-> SubSeq(p, (l - 1) * m + 1, l * m)] IN
            IF v = 5 THEN LET u == CellStep(q, st, x[1], x[2], IF lstm THEN x[3] ELSE z, ps[1]) IN
                 [st |-> u.st, outs |-> IF lstm THEN <<u.h, u.c>> ELSE <<u.h>>, which |-> IF lstm THEN <<1, 2>> ELSE <<1>>, p |-> [f |-> "step"]]
            ELSE LET xs == IF bf THEN TLCEval(Flip01(x[1])) ELSE x[1]
                     h0 == [l \in 1..L |-> IF v = 4 THEN Nth(x[2], l - 1) ELSE z] c0 == [l \in 1..L |-> IF v = 4 /\ lstm THEN Nth(x[3], l - 1) ELSE z]
                     u == SeqRun(q, st, [t \in 1..T |-> Nth(xs, t - 1)], h0, c0, ps, 1, <<>>)
                     y == IF bf THEN TLCEval(Flip01(StackT(u.ys))) ELSE StackT(u.ys)
                 IN IF v <= 2 THEN Simple(u.st, y)
                    ELSE [st |-> u.st, outs |-> <<y, StackT(u.hs)>> \o (IF lstm THEN <<StackT(u.cs)>> ELSE <<>>),
                          which |-> IF lstm THEN <<1, 2, 3>> ELSE IF q.s % 3 = 0 THEN <<2>> ELSE <<1, 2>>, p |-> [f |-> "state"]])
\* ---- attention ----
AttReqs == {[f |-> "sdpa", a |-> <<ld, lq, lk, dk, dv, mk>>, b |-> c, s |-> s] : ld \in 1..3, lq \in 1..3, lk \in 1..3, dk \in {1, 3}, dv \in {1, 2}, mk \in 0..3, c \in BOOLEAN, s \in Streams}
           \cup {[f |-> "mha", a |-> <<hd, lq, lk, kd, vd, mk>>, b |-> c, s |-> s] : hd \in 1..3, lq \in {1, 2}, lk \in {2, 3}, kd \in {2, 3}, vd \in {1, 2}, mk \in 0..2, c \in BOOLEAN, s \in Streams}
\* one mask entry in each row stays open; mask kinds: 0 none, 1 in the type of the scores, 2 boolean, 3 with the leading axes
MaskOf(q, sh) == LeafOf(sh, LAMBDA k : IF (k - 1) % sh[Len(sh)] = 0 \/ Hash(q.s, k, 3) > 0 THEN 1 ELSE 0)
Soft(q, st, qt, kt, vt, mask, causal) ==
    LET r == Len(qt.s) dk == qt.s[r] Lk == kt.s[r - 1] lead == SubQ(qt.s, r - 2)
        sc == DefS(st, TLCEval(Map(TLCEval(MatMul(qt, MatT(kt))), LAMBDA v : Dv(v, F1("sqrt", dk)))))
        Open(ix, j) == (~causal \/ j <= ix[r - 1]) /\ (mask = <<>> \/ At(mask[1], BIdx(SubQ(ix, r - 1) \o <<j>>, mask[1].s)) = 1)
        w == DefS(sc.st, Build(sc.t.s, LAMBDA ix : IF ~Open(ix, ix[r]) THEN 0
                 ELSE LET js == TLCEval(SelectSeq([j \in 1..Lk |-> j], LAMBDA j : Open(ix, j - 1))) IN
                      Dv(1, MSum([i \in 1..Len(js) |-> F1("exp", Sub(At(sc.t, SubQ(ix, r - 1) \o <<js[i] - 1>>), At(sc.t, ix)))]))))
    IN DefS(w.st, MatMul(w.t, vt))
AttOk(q) == IF q.f = "sdpa" THEN q.a[6] < 3 \/ q.a[1] = 2 ELSE TRUE
WithMask(q, xo, po, msh, cfg, s, D(_, _, _, _), f) ==
    LET mk == q.a[6] m == IF mk = 0 THEN <<>> ELSE <<Obtain(MaskOf(q, msh), <<>>)>>
        o == TLCEval(xo \o po \o m) nx == Len(xo) np == Len(po)
        so == TLCEval(Symb(xo \o po) \o m) tags == [i \in 1..Len(o) |-> IF i > nx + np /\ mk = 2 THEN "bool" ELSE "n"]
        st == Begin(so, tags, Span(nx, nx + np - 1), cfg)
        r == D(st, [i \in 1..nx |-> so[i].t], [i \in 1..np |-> so[nx + i].t], [i \in 1..Len(m) |-> m[i].t])
        g == CallS(r.st, [mode |-> IF q.s % 2 = 0 THEN "t" ELSE "e", f |-> f, mask |-> mk > 0, causal |-> q.b], Span(1, nx) \o (IF mk > 0 THEN <<nx + np + 1>> ELSE <<>>), <<r.t>>, <<1>>, s)
    IN [vals |-> Vals(o)] @@ Finish(g, so, tags, [i \in 1..Len(o) |-> i <= nx + np])
SdpaCase(q) == LET ld == <<<<>>, <<2>>, <<1, 2>>>>[q.a[1]] lq == q.a[2] lk == q.a[3] IN
    WithMask(q, Ins(<<ld \o <<lq, q.a[4]>>, ld \o <<lk, q.a[4]>>, ld \o <<lk, q.a[5]>>>>, q.s), <<>>, (IF q.a[6] = 3 THEN ld ELSE <<>>) \o <<lq, lk>>, [name |-> "sdpa"], q.s,
             LAMBDA st, x, p, m : Soft(q, st, x[1], x[2], x[3], m, q.b), "sdpa")
\* heads split the last axis: [b, l, h * e] -> [b, h, l, e] and back
Heads(t, h) == Permute([s |-> <<t.s[1], t.s[2], h, t.s[3] \div h>>, d |-> t.d], <<0, 2, 1, 3>>)
MhaCase(q) == LET H == <<1, 2, 2>>[q.a[1]] E == <<2, 2, 4>>[q.a[1]] lq == q.a[2] self == q.s % 3 = 0 lk == IF self THEN lq ELSE q.a[3] kd == IF self THEN E ELSE q.a[4] vd == IF self THEN E ELSE q.a[5]
                  B == 2 bias == Hash(q.s, 9, 2) = 0
                  xo == Ins(<<<<B, lq, E>>>> \o (IF self THEN <<>> ELSE <<<<B, lk, kd>>, <<B, lk, vd>>>>), q.s)
                  po == Pars(<<<<E, E>>, <<E, kd>>, <<E, vd>>, <<E, E>>>> \o (IF bias THEN [i \in 1..4 |-> <<E>>] ELSE <<>>), q.s) IN
    WithMask(q, xo, po, <<lq, lk>>, [name |-> "mha", embed |-> E, heads |-> H, bias |-> bias, kdim |-> kd, vdim |-> vd], q.s,
             LAMBDA st, x, p, m :
                LET Bi(i) == IF bias THEN <<p[4 + i]>> ELSE <<>> K == IF self THEN x[1] ELSE x[2] V == IF self THEN x[1] ELSE x[3]
                    qp == DefS(st, Lin(x[1], p[1], Bi(1))) kp == DefS(qp.st, Lin(K, p[2], Bi(2))) vp == DefS(kp.st, Lin(V, p[3], Bi(3)))
                    a == Soft(q, vp.st, TLCEval(Heads(qp.t, H)), TLCEval(Heads(kp.t, H)), TLCEval(Heads(vp.t, H)), m, q.b)
                    cat == Permute(a.t, <<0, 2, 1, 3>>)
                IN [st |-> a.st, t |-> Lin([s |-> <<B, lq, E>>, d |-> cat.d], p[4], Bi(4))],
             IF self THEN "self" ELSE "qkv")
\* ---- training-mode randomness: what each element may become, and the slope that goes with it ----
RndReqs == {[f |-> f, a |-> <<c, sh>>, b |-> FALSE, s |-> s] : f \in {"dropout", "rrelu", "attdrop"}, c \in 1..5, sh \in 1..3, s \in Streams}
RndCase(q) == LET sh == <<<<5>>, <<3, 4>>, <<50, 40>>>>[q.a[2]] c == IF q.f # "rrelu" THEN <<0, Q(1, 4), Q(1, 2), Q(7, 8), 1>>[q.a[1]] ELSE <<0, Q(1, 8), Q(1, 4), Q(-1, 4), 1>>[q.a[1]]
                  hi == Add(c, Q(1, 4)) o == TLCEval(Ins(<<sh>>, q.s)) so == TLCEval(Symb(o)) st == Begin(so, Ns(o), <<>>, [name |-> q.f, c |-> c, c2 |-> hi])
                  keep == IF q.a[1] = 5 THEN 0 ELSE Dv(1, Sub(1, c))
                  Alt(v) == IF q.f = "rrelu" THEN <<[lo |-> If(<<"<", 0, v>>, v, Mul(hi, v)), hi |-> If(<<"<", 0, v>>, v, Mul(c, v)), glo |-> If(<<"<", 0, v>>, 1, c), ghi |-> If(<<"<", 0, v>>, 1, hi)]>>
                            ELSE (IF q.a[1] = 1 THEN <<>> ELSE <<[lo |-> 0, hi |-> 0, glo |-> 0, ghi |-> 0]>>)
                                 \o (IF q.a[1] = 5 THEN <<>> ELSE <<[lo |-> Mul(v, keep), hi |-> Mul(v, keep), glo |-> keep, ghi |-> keep]>>)
                  f == CallS(st, [mode |-> "t", f |-> "forward"], <<1>>, <<so[1].t>>, <<1>>, q.s)
              IN [vals |-> Vals(o), alts |-> [k \in 1..Len(o[1].t.d) |-> Alt(o[1].t.d[k])], share |-> IF q.f # "rrelu" THEN c ELSE -1] @@ Finish(f, so, Ns(o), <<TRUE>>)
\* ---- behaviours ----
MReqs == CASE Mode = "linear" -> LinReqs [] Mode = "conv" -> {q \in ConvAll : ConvOk(q)} [] Mode = "pool" -> {q \in PoolAll : PoolOk(q)}
           [] Mode = "act" -> ActReqs [] Mode = "norm" -> NormReqs [] Mode = "bn" -> BnReqs [] Mode = "embed" -> {q \in EmbReqs : EmbOk(q)}
           [] Mode = "rnn" -> {q \in RnnReqs : RnnOk(q)} [] Mode = "att" -> {q \in AttReqs : AttOk(q)} [] Mode = "rnd" -> RndReqs
CaseOf(q) == CASE q.f = "linear" -> LinCase(q) [] q.f \in {"conv", "convt"} -> ConvCase(q) [] Mode = "pool" -> PoolCase(q) [] Mode = "act" -> ActCase(q)
               [] Mode = "norm" -> NormCase(q) [] q.f = "bn" -> BnCase(q) [] q.f = "embed" -> EmbCase(q) [] Mode = "rnn" -> RnnCase(q)
               [] q.f = "sdpa" -> SdpaCase(q) [] q.f = "mha" -> MhaCase(q) [] Mode = "rnd" -> RndCase(q)
MInit == req \in MReqs /\ res = <<>> /\ todo = 1 /\ out = 0
MNext == /\ todo = 1
         /\ todo' = 0
         /\ LET c == TLCEval(CaseOf(req)) IN
            /\ Export(c)
            /\ out' = Len(c.steps)
         /\ UNCHANGED <<req, res>>
MSpec == MInit /\ [][MNext]_<<vars, todo, out>>
\* every behaviour builds a module and calls it
MDone == todo = 0 => out >= 2
=============================================================================
