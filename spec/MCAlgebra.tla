----------------------------- MODULE MCAlgebra ------------------------------
(* T06. A session multiplies, contracts, convolves, resizes or inverts operands held in
   chosen layouts. *)
EXTENDS Algebra
CONSTANTS Mode, Streams, Deep
VARIABLES req, res
vars == <<req, res>>
\* --- matrix products
MMPairs == {<<<<3>>, <<3>>>>, <<<<17>>, <<17>>>>, <<<<2, 3>>, <<3>>>>, <<<<3>>, <<3, 4>>>>, <<<<2, 3>>, <<3, 4>>>>, <<<<1, 1>>, <<1, 1>>>>, <<<<5, 1>>, <<1, 3>>>>,
            <<<<9, 8>>, <<8, 17>>>>}
NDPairs == {<<<<2, 2, 3>>, <<2, 3, 2>>>>, <<<<2, 3>>, <<2, 3, 2>>>>, <<<<2, 2, 3>>, <<3, 4>>>>, <<<<2, 1, 2, 3>>, <<3, 3, 2>>>>, <<<<1, 2, 2>>, <<2, 2, 1>>>>,
            <<<<2, 1, 1, 2>>, <<1, 2, 2, 3>>>>, <<<<3, 9, 4>>, <<1, 4, 5>>>>}
MMReqs == UNION {{[m |-> "mm", op |-> op, shapes |-> sp, kinds |-> <<k1, k2>>, s |-> s, p |-> NoP] :
             op \in IF Len(sp[1]) <= 2 /\ Len(sp[2]) <= 2 THEN {"matmul", "dot"} ELSE {"matmul"}, k1 \in KindsFor(sp[1]), k2 \in KindsFor(sp[2]), s \in Streams} : sp \in MMPairs \cup NDPairs}
\* --- einsum
Eqs == <<[ins |-> <<<<"i","j">>, <<"j","k">>>>, out |-> <<"i","k">>, sh |-> <<<<2,3>>, <<3,2>>>>],
         [ins |-> <<<<"b","i","j">>, <<"b","j","k">>>>, out |-> <<"b","i","k">>, sh |-> <<<<2,2,3>>, <<2,3,2>>>>],
         [ins |-> <<<<"i","j">>>>, out |-> <<"j","i">>, sh |-> <<<<2,3>>>>],
         [ins |-> <<<<"i","i">>>>, out |-> <<>>, sh |-> <<<<3,3>>>>],
         [ins |-> <<<<"i","i">>>>, out |-> <<"i">>, sh |-> <<<<3,3>>>>],
         [ins |-> <<<<"i">>, <<"j">>>>, out |-> <<"i","j">>, sh |-> <<<<3>>, <<2>>>>],
         [ins |-> <<<<"i">>, <<"j">>>>, out |-> <<"j","i">>, sh |-> <<<<3>>, <<2>>>>],
         [ins |-> <<<<"i">>, <<"i">>>>, out |-> <<>>, sh |-> <<<<4>>, <<4>>>>],
         [ins |-> <<<<"i","j">>>>, out |-> <<>>, sh |-> <<<<2,3>>>>],
         [ins |-> <<<<"i","j">>>>, out |-> <<"j">>, sh |-> <<<<2,3>>>>],
         [ins |-> <<<<"i","j","k">>>>, out |-> <<"k","i">>, sh |-> <<<<2,3,2>>>>],
         [ins |-> <<<<"i","j">>, <<"i","j">>>>, out |-> <<"i">>, sh |-> <<<<2,3>>, <<2,3>>>>],
         [ins |-> <<<<"a","b">>, <<"c">>, <<"b","c">>>>, out |-> <<"c","a">>, sh |-> <<<<2,3>>, <<2>>, <<3,2>>>>],
         [ins |-> <<<<"i","j">>, <<"j","k">>, <<"k","l">>, <<"l">>>>, out |-> <<"i">>, sh |-> <<<<2,2>>, <<2,3>>, <<3,2>>, <<2>>>>],
         [ins |-> <<<<"b","h","q","d">>, <<"b","h","k","d">>>>, out |-> <<"b","h","q","k">>, sh |-> <<<<2,2,2,3>>, <<2,2,1,3>>>>],
         [ins |-> <<<<"i","i","j">>, <<"j","i">>>>, out |-> <<"i","j">>, sh |-> <<<<2,2,3>>, <<3,2>>>>],
         [ins |-> <<<<"z","a">>>>, out |-> <<"a","z">>, sh |-> <<<<2,3>>>>],
         [ins |-> <<<<"i">>>>, out |-> <<"i">>, sh |-> <<<<3>>>>]>>
\* the output left out: labels that occur once, in alphabetical order
ImpOutOf(ins) == LET cnt(l) == SumSeq([i \in 1..Len(ins) |-> Len(SelectSeq(ins[i], LAMBDA x : x = l))])
                     abc == <<"a","b","c","d","h","i","j","k","l","q","z">>
                 IN SelectSeq(abc, LAMBDA l : cnt(l) = 1)
ImpOut(q) == ImpOutOf(Eqs[q.eqn].ins)
EinKinds(shs) == IF Len(shs) = 1 THEN {<<k0>> : k0 \in KindsFor(shs[1])}
    ELSE {[n1 \in 1..Len(shs) |-> IF n1 = 1 THEN k1 ELSE IF n1 = 2 THEN k2 ELSE "off"] : k1 \in KindsFor(shs[1]), k2 \in KindsFor(shs[2])}
EinReqs == UNION {{[m |-> "ein", op |-> "einsum", eqn |-> e, imp |-> FALSE, shapes |-> Eqs[e].sh, kinds |-> ks, s |-> s] :
              ks \in EinKinds(Eqs[e].sh),
              s \in Streams} : e \in 1..Len(Eqs)}
           \cup {[m |-> "ein", op |-> "einsum", eqn |-> e2, imp |-> TRUE, shapes |-> Eqs[e2].sh, kinds |-> [i \in 1..Len(Eqs[e2].sh) |-> "plain"], s |-> s] : e2 \in {1, 4, 6, 8, 17, 18}, s \in Streams}
\* --- convolutions: spatial extents, kernel extents, channels
ConvCfgs(r) == CASE r = 1 -> {[n |-> <<5>>, k |-> <<3>>], [n |-> <<7>>, k |-> <<2>>], [n |-> <<4>>, k |-> <<1>>], [n |-> <<12>>, k |-> <<3>>]}
                 [] r = 2 -> {[n |-> <<4, 5>>, k |-> <<2, 3>>], [n |-> <<5, 3>>, k |-> <<3, 1>>], [n |-> <<3, 3>>, k |-> <<1, 1>>]} \cup (IF Deep THEN {[n |-> <<6, 7>>, k |-> <<3, 3>>]} ELSE {})
                 [] r = 3 -> {[n |-> <<3, 2, 3>>, k |-> <<2, 1, 2>>]} \cup (IF Deep THEN {[n |-> <<3, 4, 3>>, k |-> <<2, 3, 2>>], [n |-> <<2, 3, 4>>, k |-> <<1, 1, 1>>]} ELSE {})
Hyper == {<<1, 0, 1>>, <<2, 0, 1>>, <<1, 1, 1>>, <<2, 1, 1>>, <<1, 0, 2>>, <<2, 1, 2>>, <<3, 2, 1>>, <<1, 2, 2>>}
Chans == {<<1, 1, 1>>, <<2, 2, 3>>} \cup (IF Deep THEN {<<1, 3, 2>>, <<3, 1, 2>>} ELSE {})
ConvOps(r) == LET n == IF r = 1 THEN "1d" ELSE IF r = 2 THEN "2d" ELSE "3d" IN
    {[f |-> "conv", op |-> "conv" \o n], [f |-> "convt", op |-> "conv_transpose" \o n], [f |-> "gw", op |-> "conv" \o n \o "_grad_weight"], [f |-> "tgw", op |-> "conv_transpose" \o n \o "_grad_weight"]}
KindPairs == <<<<"plain", "plain">>, <<"off", "trans">>, <<"step", "plain">>, <<"plain", "transoff">>, <<"perm", "off">>, <<"bc", "perm">>>>
KindIxs(o, c, h, ch) == IF Deep THEN 1..6 ELSE LET n == h[1] + 2 * h[2] + h[3] + ch[1] + c.n[1] + Len(o.f) IN {1 + (n % 6), 1 + ((n + 3) % 6)}
ConvReqs == UNION {UNION {{[m |-> "conv", f |-> o.f, op |-> o.op, cfg |-> c, h |-> h, ch |-> ch, op2 |-> opd, kinds |-> KindPairs[kp], s |-> s] :
              kp \in KindIxs(o, c, h, ch), s \in Streams, opd \in {0, 1}} : c \in ConvCfgs(r), h \in Hyper, ch \in Chans, o \in ConvOps(r)} : r \in 1..3}
OkConv(q) == (q.f = "convt" \/ q.op2 = 0) /\ LET r == Len(q.cfg.n) s == q.h[1] p == q.h[2] d == q.h[3] IN
    CASE q.f \in {"conv", "gw"} -> \A i \in 1..r : q.cfg.n[i] + 2 * p >= d * (q.cfg.k[i] - 1) + 1
      [] OTHER -> (q.op2 < s \/ q.op2 < d \/ q.op2 = 0) /\ \A i \in 1..r : ConvTOut(q.cfg.n[i], q.cfg.k[i], s, p, q.op2, d) >= 1
GShape(q) == LET r == Len(q.cfg.n) IN <<q.ch[1], q.ch[3]>> \o [i \in 1..r |->
    IF q.f = "gw" THEN ConvOut(q.cfg.n[i], q.cfg.k[i], q.h[1], q.h[2], q.h[3]) ELSE ConvTOut(q.cfg.n[i], q.cfg.k[i], q.h[1], q.h[2], 0, q.h[3])]
XShape(q) == <<q.ch[1], q.ch[2]>> \o q.cfg.n
WShape(q) == (IF q.f \in {"conv", "gw"} THEN <<q.ch[3], q.ch[2]>> ELSE <<q.ch[2], q.ch[3]>>) \o q.cfg.k
ConvShapes(q) == <<XShape(q), IF q.f \in {"conv", "convt"} THEN WShape(q) ELSE GShape(q)>>
\* --- resizing
RzReqs == {[m |-> "rz", op |-> "resize", shapes |-> <<sh>>, kinds |-> <<k>>, size |-> sz, mode |-> md[1], near |-> md[2], coord |-> ct, s |-> s] :
             sh \in {<<1, 2, 3, 2>>, <<2, 1, 2, 5>>}, sz \in {<<6, 4>>, <<1, 2>>, <<3, 5>>, <<2, 1>>, <<4, 8>>, <<9, 3>>},
             k \in KindsFor(<<1, 1, 1, 1>>), s \in Streams, ct \in {"half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"},
             md \in {<<"nearest", "floor">>, <<"nearest", "ceil">>, <<"nearest", "round_prefer_floor">>, <<"nearest", "round_prefer_ceil">>, <<"bilinear", "floor">>}}
      \cup {[m |-> "rz", op |-> "resize", shapes |-> <<sh>>, kinds |-> <<k>>, size |-> sz, mode |-> md[1], near |-> md[2], coord |-> ct, s |-> s] :
             sh \in {<<1, 2, 2, 3, 2>>}, sz \in {<<4, 2, 1>>, <<2, 6, 3>>, <<1, 3, 4>>},
             k \in {"plain", "off", "trans", "perm"}, s \in Streams, ct \in {"half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"},
             md \in {<<"nearest", "floor">>, <<"nearest", "round_prefer_ceil">>, <<"trilinear", "floor">>}}
\* a coordinate on a rounding boundary is decided only where single precision holds it exactly
OkRz(q) == LET sh == q.shapes[1] r == Len(sh) - 2 IN q.mode # "nearest" \/
    \A i \in 1..r : LET ni == sh[i + 2] no == q.size[i] den == CoordDen(ni, no, q.coord) IN
        ni = no \/ IsPow2(no) \/ (q.coord = "align_corners" /\ (no = 1 \/ IsPow2(no - 1))) \/
        \A o \in 0..(no-1) : LET a == CoordNum(o, ni, no, q.coord) IN
            IF q.near \in {"floor", "ceil"} THEN a % den # 0 \/ o = 0 ELSE (2 * a) % den # 0 \/ a % den = 0
\* --- linear algebra: unit lower triangular times upper triangular, diagonal of small factors
LaShapes == {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<5, 5>>, <<2, 2, 2>>, <<2, 1, 3, 3>>, <<3, 4, 4>>}
LaReqs == UNION {{[m |-> "la", op |-> op, shapes |-> <<sh>>, kinds |-> <<k>>, s |-> s, c |-> c] :
             op \in {"det", "inv", "trace", "solve1", "solve2"}, k \in DressedKinds(sh), s \in Streams, c \in {"lu", "perm", "rand"}} : sh \in LaShapes}
OkLa(q) == ~(q.op \in {"inv", "solve1", "solve2"} /\ q.c = "rand")
UnitL(s, b, i, j) == IF i = j THEN 1 ELSE IF i > j THEN Hash(s, b * 50 + i * 7 + j, 3) - 1 ELSE 0
UpR(s, b, i, j) == IF i = j THEN <<1, -1, 2, 1>>[1 + Hash(s + 3, b * 50 + i, 4)] ELSE IF j > i THEN Hash(s + 5, b * 50 + i * 7 + j, 3) - 1 ELSE 0
LaMat(q, sh) == LET r == Len(sh) n == sh[r] nb == r - 2 bs == SubQ(sh, nb) IN Build(sh, LAMBDA ix :
    LET b == Rav(SubQ(ix, nb), bs) i == ix[nb + 1] j == ix[nb + 2] IN
    CASE q.c = "lu" -> SumOver(n, LAMBDA k : UnitL(q.s, b, i, k) * UpR(q.s, b, k, j))
      [] q.c = "perm" -> IF j = (i * (IF n % 2 = 1 THEN 2 ELSE 1) + q.s + b) % n THEN <<1, -1, 2, -2>>[1 + Hash(q.s, b * 9 + i, 4)] ELSE 0
      [] q.c = "rand" -> IF q.s % 2 = 0 /\ i = n - 1 THEN Hash(q.s, b * 60 + j, 5) - 2 + (IF n > 1 THEN 0 ELSE 1)   \* last row repeats row 0: singular
                         ELSE IF q.s % 2 = 0 /\ i = 0 THEN Hash(q.s, b * 60 + j, 5) - 2 ELSE Hash(q.s, b * 60 + i * 8 + j, 5) - 2)
RhsShape(q) == LET sh == q.shapes[1] n == sh[Len(sh)] IN IF q.op = "solve1" THEN <<n>> ELSE SubQ(sh, Len(sh) - 2) \o <<n, 2>>
Reqs == CASE Mode = "mm" -> MMReqs [] Mode = "ein" -> EinReqs [] Mode = "conv" -> {q \in ConvReqs : OkConv(q)}
          [] Mode = "rz" -> {q \in RzReqs : OkRz(q)} [] Mode = "la" -> {q \in LaReqs : OkLa(q)}

\* streams: signs, small signed, naturals
V(s, k) == CASE s % 3 = 0 -> Hash(s, k, 3) - 1 [] s % 3 = 1 -> Hash(s, k, 7) - 3 [] OTHER -> Hash(s, k, 4)
KindOk(k, sh) == IF k \in KindsFor(sh) THEN k ELSE "off"
ShapesOf2(q) == IF q.m = "conv" THEN ConvShapes(q) ELSE q.shapes
Operands(q) == LET shs == ShapesOf2(q) IN
    IF q.m = "la" THEN LET a == Dressed(q.kinds[1], LaMat(q, q.shapes[1]), 1) IN
        IF q.op \in {"solve1", "solve2"} THEN <<a, Opnd(KindOk(q.kinds[1], RhsShape(q)), RhsShape(q), LAMBDA k : Hash(q.s, k + 300, 7) - 3)>> ELSE <<a>>
    ELSE [i \in 1..Len(shs) |-> Opnd(KindOk(q.kinds[i], shs[i]), shs[i], LAMBDA k : IF q.m = "rz" THEN Hash(q.s, k, 8) * 2 ELSE V(q.s, k + 500 * i))]
Result(q, o) ==
    CASE q.m = "mm" -> MatMul(o[1].t, o[2].t)
      [] q.m = "ein" -> Einsum(Eqs[q.eqn].ins, IF q.imp THEN ImpOut(q) ELSE Eqs[q.eqn].out, [i \in 1..Len(o) |-> o[i].t])
      [] q.m = "conv" /\ q.f = "conv" -> Conv(o[1].t, o[2].t, q.h[1], q.h[2], q.h[3])
      [] q.m = "conv" /\ q.f = "convt" -> ConvT(o[1].t, o[2].t, q.h[1], q.h[2], q.op2, q.h[3])
      [] q.m = "conv" /\ q.f = "gw" -> ConvGW(o[1].t, o[2].t, WShape(q), q.h[1], q.h[2], q.h[3])
      [] q.m = "conv" /\ q.f = "tgw" -> ConvTGW(o[1].t, o[2].t, WShape(q), q.h[1], q.h[2], q.h[3])
      [] q.m = "rz" -> IF q.mode = "nearest" THEN ResizeNearest(o[1].t, q.size, q.coord, q.near) ELSE ResizeLinear(o[1].t, q.size, q.coord)
      [] q.op = "det" -> Det(o[1].t) [] q.op = "inv" -> Inv(o[1].t) [] q.op = "trace" -> Trace(o[1].t)
      [] OTHER -> Solve(o[1].t, o[2].t)
OpName(q) == IF q.op \in {"solve1", "solve2"} THEN "solve" ELSE q.op
Param(q) == CASE q.m = "ein" -> [eq |-> EqStr(Eqs[q.eqn].ins, Eqs[q.eqn].out, q.imp)]
              [] q.m = "conv" -> [stride |-> q.h[1], pad |-> q.h[2], dil |-> q.h[3], opad |-> q.op2, wshape |-> WShape(q)]
              [] q.m = "rz" -> [size |-> q.size, mode |-> q.mode, coord |-> q.coord, near |-> q.near] [] OTHER -> NoP
\* terms added up in one output element
Terms(q) == CASE q.m = "mm" -> q.shapes[1][Len(q.shapes[1])] [] q.m = "conv" -> (CASE q.f \in {"conv", "convt"} -> q.ch[2] * Prod(q.cfg.k) [] OTHER -> q.ch[1] * Prod(Spat(GShape(q))) * 9)
              [] q.m = "ein" -> 12 [] OTHER -> 1
F8(q) == q.s % 3 = 0 /\ Terms(q) <= 8
FloatDts == "f32,f64,f16,bf16"
Dts(q) == CASE q.m \in {"mm", "ein"} -> IF F8(q) THEN "num" ELSE "sumd"
            [] q.m = "conv" -> IF F8(q) THEN "float" ELSE "float2"
            [] q.m = "rz" -> IF q.mode = "nearest" THEN "float" ELSE "float2"
            [] q.op = "trace" -> "sumd"
            [] q.op = "det" /\ q.c = "perm" -> "num"
            [] q.op = "det" /\ q.c = "rand" -> "f32,f64,i32,i64,i16,u16,u32,u64,i8,u8" \o (IF q.shapes[1][Len(q.shapes[1])] <= 3 THEN ",f16,bf16" ELSE "")
            [] q.op = "det" -> "f32,f64,i32,i64,i16,i8,u8,u16,u32,u64" \o (IF q.shapes[1][Len(q.shapes[1])] <= 3 THEN ",f16,bf16" ELSE "")
            [] q.op = "inv" /\ q.c = "perm" -> "float"
            [] q.c = "perm" -> "float2"
            [] OTHER -> "float3"
Tol(q) == CASE q.m = "rz" /\ q.mode # "nearest" -> [tol |-> 16, mag |-> 16, lowtol |-> 4, lowmag |-> 16, sp |-> TRUE]
            [] q.m = "la" /\ (q.c = "perm" \/ q.op = "trace") -> [tol |-> 4, mag |-> 0, lowtol |-> 4, lowmag |-> 0]
            [] q.m = "la" -> [tol |-> 64, mag |-> 2000, lowtol |-> 4, lowmag |-> 4]
            [] OTHER -> [tol |-> 0]
Init == req \in Reqs /\ res = [s |-> <<-1>>, d |-> <<>>]
Next == /\ res.s = <<-1>>
        /\ LET o == TLCEval(Operands(req)) r == TLCEval(Result(req, o)) IN
           /\ res' = r
           /\ Export(ProgT(o, Ns(o), OpName(req), Param(req), <<r>>, [dts |-> Dts(req)] @@ Tol(req)))
        /\ UNCHANGED req
Spec == Init /\ [][Next]_vars
Done == res.s # <<-1>>
\* --- checked on the specification itself
Shaped == Done => Len(res.d) = Prod(res.s)
\* the transposed convolution is the adjoint of the convolution: <g, conv x> = <convT g, x>
Adjoint == (Done /\ req.m = "conv" /\ req.f = "conv") =>
    LET o == Operands(req) x == o[1].t w == o[2].t g == [s |-> res.s, d |-> [k \in 1..Len(res.d) |-> Hash(3, k, 5) - 2]]
        r == Len(req.cfg.n)
        y == ConvT(g, w, req.h[1], req.h[2], 0, req.h[3])
        \* extents the stride cut off receive nothing
        same == \A i \in 1..r : y.s[i + 2] = x.s[i + 2]
    IN same => Dot(g, res) = Dot(y, x)
\* weight gradients are the adjoints in the weights
AdjointW == (Done /\ req.m = "conv" /\ req.f \in {"gw", "tgw"}) =>
    LET o == Operands(req) x == o[1].t g == o[2].t w == [s |-> res.s, d |-> [k \in 1..Len(res.d) |-> Hash(4, k, 5) - 2]]
        y == IF req.f = "gw" THEN Conv(x, w, req.h[1], req.h[2], req.h[3]) ELSE ConvT(x, w, req.h[1], req.h[2], 0, req.h[3])
    IN Dot(res, w) = Dot(y, g)
\* the ordinary matrix product is the einsum of its indices
MatEin == (Done /\ req.m = "mm" /\ Len(req.shapes[1]) = 2 /\ Len(req.shapes[2]) = 2) =>
    LET o == Operands(req) IN Einsum(<<<<"i","j">>, <<"j","k">>>>, <<"i","k">>, <<o[1].t, o[2].t>>) = res
=============================================================================
