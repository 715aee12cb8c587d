------------------------------ MODULE MCDomain ------------------------------
(* T07: enumerates requests around the boundary of every operation's domain and exports those outside it. *)
EXTENDS Domain
CONSTANTS Mode, Big, Inside \* Inside: export the requests inside the domain instead (to validate Ok against the code)
VARIABLES req, done

Shs == {<<>>, <<3>>, <<1>>, <<2, 3>>, <<1, 3>>, <<1, 3, 1>>, <<2, 1, 2>>} \cup IF Big THEN {<<4, 2>>, <<2, 3, 1, 2>>, <<5>>} ELSE {}
Ax4 == -4..3
Q(op, o, p, dts) == [op |-> op, o |-> o, p |-> p, dts |-> dts]
FloatRed == {"mean", "std", "var", "l2_norm", "logsum", "logsumexp", "l1_norm"}

RedReqs == {Q(op, <<T(s)>>, [dims |-> ds, keep |-> (Len(ds) + Len(s)) % 2 = 0], IF op \in FloatRed THEN "f32,f64" ELSE "f32,i32,u8")
              : op \in RedOps \cup {"flip", "squeeze"}, s \in Shs, ds \in {<<a>> : a \in Ax4} \cup {<<a, b>> : a \in -3..2, b \in -3..3}}
DimReqs ==
    {Q(op, <<T(s)>>, [dim |-> d], "f32") : op \in {"cumsum", "softmax", "log_softmax", "unsqueeze"}, s \in Shs, d \in -5..4}
    \cup {Q("topk", <<T(s)>>, [dim |-> d, k |-> k, largest |-> (k % 2 = 0), sorted |-> TRUE], "f32,i32") : s \in Shs, d \in Ax4, k \in 0..5}
    \cup {Q("slice", <<T(s)>>, [dim |-> d, start |-> a, end |-> e, step |-> st], "f32,u8") : s \in Shs, d \in {-4, -3, -1, 0, 1, 3}, a \in {-9, -2, 0, 1, 3, 9}, e \in {-9, -1, 0, 2, 9, 99}, st \in {-2, -1, 0, 1, 2}}
    \cup {Q("split", <<T(s)>>, [dim |-> d, sizes |-> z], "f32") : s \in Shs, d \in Ax4, z \in {<<1>>, <<3>>, <<1, 2>>, <<2, 2>>, <<1, 1, 1>>, <<4>>, <<>>}}
    \cup {Q("chunk", <<T(s)>>, [dim |-> d, n |-> n], "f32") : s \in Shs, d \in Ax4, n \in {0, 1, 2, 9}}
Ints(n, lo) == [k \in 1..n |-> lo]
IdxData(n, bad, at) == [k \in 1..n |-> IF k = at THEN bad ELSE 0]
IdxReqs ==
    UNION {{Q("index_select", <<T(s), TD(<<n>>, t, IdxData(n, v, at))>>, [dim |-> d], "f32,i64") : d \in Ax4, n \in {1, 3}, v \in {-4, -3, -1, 0, 2, 3, 99}, at \in {1}, t \in {"i"}} : s \in Shs}
    \cup UNION {{Q("index_select", <<T(s), TD(i, t, IdxData(Prod(i), v, Prod(i)))>>, [dim |-> 0], "f32") : i \in {<<>>, <<2>>, <<2, 1>>}, v \in {0, -9}, t \in {"i", "f32", "b"}} : s \in Shs \ {<<>>}}
    \cup UNION {{Q("index_put", <<T(s), TD(<<n>>, "i", IdxData(n, v, n)), TT_(vs, vt)>>, [dim |-> d], "f32")
                   : d \in {-3, -2, -1, 0, 1, 3}, n \in {1, 2}, v \in {-1, 0, 1, 3, -4}, vt \in {"n", "f64"},
                     vs \in {<<1>>, <<2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>, <<2, 3>>, <<1, 1, 1>>, <<2, 1, 1>>}} : s \in Shs}
    \cup UNION {{Q("gather", <<T(s), TD(i, t, IdxData(Prod(i), v, Prod(i)))>>, [dim |-> d], "f32,u8")
                   : d \in {-3, -2, -1, 0, 1, 3}, v \in {-4, -1, 0, 1, 3}, t \in {"i", "f32"}, i \in {<<2>>, <<1, 2>>, <<2, 3>>, <<3, 1>>, <<1, 1, 1>>, <<2, 3, 1>>}} : s \in Shs}
    \cup UNION {{Q(op, <<T(s), TD(i, "i", IdxData(Prod(i), v, 1)), TT_(vs, vt)>>, [dim |-> d], "f32")
                   : op \in Scatters, d \in {-3, -1, 0, 1, 3}, v \in {-4, 0, 2, 3}, vt \in {"n", "f64"}, i \in {<<2>>, <<1, 2>>, <<2, 3>>, <<2, 4>>, <<1, 1, 1>>},
                     vs \in {<<2>>, <<1, 2>>, <<2, 3>>, <<1, 1, 1>>}} : s \in {<<3>>, <<2, 3>>, <<2, 1, 2>>}}
    \cup UNION {{Q("onehot", <<TD(s, t, [k \in 1..Prod(s) |-> 0])>>, [n |-> n, axis |-> a, dt |-> "f32"], "f32") : n \in {0, 1, 3, -1}, a \in -5..4, t \in {"i", "f32", "b"}} : s \in Shs}
    \cup UNION {{Q("compress", <<T(s), TD(c, t, [k \in 1..Prod(c) |-> k % 2])>>, [axis |-> a], "f32,i32") : a \in {-4, -2, -1, 0, 1, 2, 99}, t \in {"b", "i", "n"},
                   c \in {<<>>, <<1>>, <<2>>, <<3>>, <<6>>, <<1, 3>>}} : s \in Shs}
ShReqs ==
    {Q(op, <<T(s)>>, [shape |-> t], "f32,u8") : op \in {"reshape", "view", "broadcast", "sum_to_shape"}, s \in Shs,
        t \in {<<>>, <<1>>, <<3>>, <<2>>, <<6>>, <<3, 2>>, <<2, 3>>, <<1, 3>>, <<3, 3>>, <<4, 1>>, <<2, 2, 2>>, <<1, 1, 1>>, <<2, 3, 1>>, <<5, 1, 3, 1>>}}
    \cup {Q("repeat", <<T(s)>>, [n |-> t], "f32") : s \in Shs, t \in {<<>>, <<1>>, <<2, 2>>, <<1, 2, 1>>, <<1, 1, 1, 1>>}}
    \cup {Q("permute", <<T(s)>>, [axes |-> a], "f32") : s \in Shs, a \in {<<>>, <<0>>, <<1>>, <<-1>>, <<-2>>} \cup {<<x, y>> : x \in -3..2, y \in -3..2} \cup {<<x, y, z>> : x \in {-4, -3, 0, 1, 2}, y \in {-1, 0, 1}, z \in {-2, 0, 1, 2, 3}}}
    \cup {Q("transpose", <<T(s)>>, [a |-> a, b |-> b], "f32") : s \in Shs, a \in Ax4, b \in Ax4}
PairSh == {<<a, b>> : a \in Shs, b \in Shs \cup {<<2>>, <<3, 2>>, <<2, 2>>, <<3, 3, 1>>}}
BinReqs ==
    {Q(op, <<T(ab[1]), T(ab[2])>>, NoP, "f32,f64") : op \in BinNum \cup BinCmp \cup BinLog, ab \in PairSh}
    \cup {Q(op, <<T(ab[1]), T(ab[2])>>, NoP, "i32,u8") : op \in (BinNum \ {"div", "pow"}) \cup BinCmp \cup BinBit, ab \in PairSh}
    \cup {Q(op, <<TT_(s, "n"), TT_(s, t)>>, NoP, "f32") : op \in BinNum \cup BinCmp \cup BinLog, s \in {<<>>, <<3>>, <<2, 3>>}, t \in {"f64", "i", "b", "u8", "f16"}}
    \cup {Q(op, <<TT_(s, t), TT_(s, "n")>>, NoP, "i32") : op \in BinBit \cup (BinNum \ {"div", "pow"}) \cup BinCmp \cup BinLog, s \in {<<>>, <<3>>}, t \in {"i64", "u32", "u8", "i16", "f32"}}
    \cup {Q("where3", <<T(abc[1]), TT_(abc[2], t), TT_(abc[3], u)>>, NoP, "f32") : abc \in {<<3>>, <<2, 3>>, <<1, 3, 1>>, <<>>} \X {<<3>>, <<2>>, <<1, 3>>, <<>>} \X {<<3>>, <<2, 1>>, <<4>>}, t \in {"b", "i", "n"}, u \in {"n", "f64"}}
    \cup {Q("masked_fill", <<T(ab[1]), TT_(ab[2], t)>>, [c |-> 1], "f32,i32") : ab \in PairSh, t \in {"b", "i"}}
JoinReqs ==
    {Q("concat", <<T(ab[1]), TT_(ab[2], t)>>, [dim |-> d], "f32") : ab \in PairSh, t \in {"n", "f64"}, d \in Ax4}
    \cup {Q("concat", <<T(a), T(b), T(c)>>, [dim |-> d], "f32") : a \in {<<2, 3>>, <<3>>}, b \in {<<2, 3>>, <<1, 3>>, <<2, 1>>}, c \in {<<1, 3>>, <<2, 2>>, <<2>>}, d \in -3..2}
    \cup {Q("stack", <<T(ab[1]), TT_(ab[2], t)>>, [dim |-> d], "f32") : ab \in PairSh, t \in {"n", "i"}, d \in -5..4}
MatSh == {<<>>, <<2>>, <<3>>, <<2, 3>>, <<3, 2>>, <<2, 2>>, <<2, 2, 3>>, <<3, 3, 2>>, <<1, 3, 2>>, <<2, 3, 2, 2>>}
EinLabs == {<<<<1>>>>, <<<<1, 2>>>>, <<<<1, 1>>>>, <<<<1>>, <<1>>>>, <<<<1, 2>>, <<2, 3>>>>, <<<<1, 2>>, <<2>>>>, <<<<1, 2>>, <<1, 2>>>>, <<<<1, 1>>, <<1, 2>>>>}
EinOuts == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<1, 3>>, <<1, 1>>, <<4>>, <<3, 1>>}
EinSh == {<<>>, <<2>>, <<1>>, <<2, 1>>, <<1, 2>>, <<3>>, <<2, 3>>, <<2, 2>>, <<3, 2>>, <<2, 3, 2>>}
MatReqs ==
    {Q(op, <<T(a), T(b)>>, NoP, "f32,f64") : op \in {"matmul", "dot", "solve"}, a \in MatSh, b \in MatSh}
    \cup {Q(op, <<T(<<2, 2>>), TT_(<<2, 2>>, t)>>, NoP, "f32") : op \in {"matmul", "dot", "solve"}, t \in {"f64", "i", "b"}}
    \cup {Q(op, <<T(a)>>, NoP, "f32,i32") : op \in {"det", "inv", "trace"}, a \in MatSh}
EinReqs == UNION {{[op |-> "einsum", o |-> [i \in 1..Len(l) |-> IF i = 1 THEN T(a) ELSE TT_(b, t)], p |-> [eq |-> EqStr(l, out)], dts |-> "f32", ins |-> l, out |-> out]
              : out \in EinOuts, a \in EinSh, b \in IF Len(l) = 1 THEN {<<>>} ELSE EinSh, t \in {"n", "f64"}} : l \in EinLabs}
    \cup UNION {{[op |-> "einsum", o |-> [i \in 1..n |-> T(<<2, 2>>)], p |-> [eq |-> EqStr(l, <<1>>)], dts |-> "f32", ins |-> l, out |-> <<1>>] : n \in 1..3} : l \in {<<<<1, 2>>>>, <<<<1, 2>>, <<2, 3>>>>}}
EinBad == {[op |-> "einsum", o |-> <<T(<<2, 2>>)>>, p |-> [eq |-> e], dts |-> "f32", ins |-> <<>>, out |-> <<>>]
              : e \in {"", "->", "ab->a->b", ",->", "ab,->a", "abc->a", "a->a", "ab->a,b"}}
C2 == {<<2, 3, 4>>, <<1, 2, 2>>, <<2, 3>>, <<2, 3, 2, 2>>, <<2, 3, 5>>}
ConvReqs ==
    {Q("conv1d", <<T(x), TT_(w, t)>>, [stride |-> st, pad |-> pd, dil |-> dl], "f32") : x \in C2, w \in {<<2, 3, 2>>, <<1, 2, 3>>, <<3, 3, 6>>, <<3, 3>>, <<2, 3, 2, 2>>}, st \in {0, 1, 2}, pd \in {0, 1}, dl \in {0, 1, 3}, t \in {"n", "f64"}}
    \cup {Q("conv2d", <<T(x), T(w)>>, [stride |-> st, pad |-> pd, dil |-> dl], "f32") : x \in {<<2, 3, 2, 4>>, <<1, 2, 2, 2>>, <<2, 3, 4>>}, w \in {<<2, 3, 2, 2>>, <<1, 2, 3, 1>>, <<3, 3, 2, 5>>, <<2, 3, 2>>, <<1, 3, 2, 2, 2>>}, st \in {0, 1, 2}, pd \in {0, 1}, dl \in {0, 1, 3}}
    \cup {Q("conv3d", <<T(x), T(w)>>, [stride |-> st, pad |-> pd, dil |-> dl], "f32") : x \in {<<1, 2, 2, 2, 2>>, <<1, 3, 2, 2>>}, w \in {<<2, 2, 2, 1, 2>>, <<1, 3, 1, 1, 1>>, <<2, 2, 2, 3, 2>>, <<2, 2, 2>>}, st \in {0, 1}, pd \in {0, 1}, dl \in {0, 1, 2}}
    \cup {Q("conv_transpose1d", <<T(x), TT_(w, t)>>, [stride |-> st, pad |-> pd, opad |-> op, dil |-> dl], "f32") : x \in C2, w \in {<<3, 2, 2>>, <<2, 1, 3>>, <<3, 3>>, <<3, 2, 1>>}, st \in {0, 1, 2}, pd \in {0, 1, 2, 4}, op \in {0, 1}, dl \in {0, 1}, t \in {"n", "f64"}}
    \cup {Q("conv_transpose2d", <<T(x), T(w)>>, [stride |-> st, pad |-> pd, opad |-> 0, dil |-> dl], "f32") : x \in {<<2, 3, 2, 4>>, <<1, 2, 1, 1>>, <<2, 3, 4>>}, w \in {<<3, 2, 2, 2>>, <<2, 1, 1, 2>>, <<3, 2, 2>>}, st \in {0, 1}, pd \in {0, 1, 3}, dl \in {0, 1}}
    \cup {Q("conv_transpose3d", <<T(x), T(w)>>, [stride |-> st, pad |-> pd, opad |-> 0, dil |-> dl], "f32") : x \in {<<1, 2, 2, 2, 2>>, <<1, 3, 2, 2>>}, w \in {<<2, 2, 2, 1, 2>>, <<1, 3, 1, 1, 1>>, <<2, 2, 2>>}, st \in {0, 1}, pd \in {0, 2}, dl \in {0, 1}}
    \cup {Q("conv1d_grad_weight", <<T(x), T(g)>>, [wshape |-> w, stride |-> st, pad |-> pd, dil |-> dl], "f32") : x \in {<<2, 3, 4>>, <<2, 3>>}, g \in {<<2, 2, 3>>, <<1, 2, 3>>, <<2, 2, 4>>, <<2, 2>>}, w \in {<<2, 3, 2>>, <<2, 2, 2>>, <<3, 3, 2>>, <<2, 3, 7>>, <<2, 3>>}, st \in {0, 1}, pd \in {0, 1}, dl \in {0, 1}}
    \cup {Q("conv2d_grad_weight", <<T(x), T(g)>>, [wshape |-> w, stride |-> st, pad |-> 0, dil |-> dl], "f32") : x \in {<<2, 3, 4, 3>>, <<2, 3, 4>>}, g \in {<<2, 2, 3, 2>>, <<1, 2, 3, 2>>, <<2, 2, 4, 2>>, <<2, 2, 3>>}, w \in {<<2, 3, 2, 2>>, <<2, 2, 2, 2>>, <<2, 3, 7, 2>>, <<2, 3, 2>>}, st \in {0, 1}, dl \in {0, 1}}
PadS == {<<>>, <<<<1, 0>>>>, <<<<1, 1>>, <<0, 2>>>>, <<<<0, 0>>, <<0, 1>>, <<1, 0>>>>}
WinReqs ==
    {Q(op, <<T(s)>>, [pad |-> pd, c |-> 1], "f32,i32") : op \in Pads, s \in Shs, pd \in PadS}
    \cup {Q("pad", <<T(s)>>, [pad |-> pd, mode |-> m, c |-> 0], "f32") : s \in Shs, pd \in PadS, m \in {"constant", "reflect", "edges", "", "mirror"}}
    \cup {Q("reduce_window", <<T(s)>>, [win |-> w, str |-> st, pad |-> pd, red |-> rd], "f32") : s \in {<<3>>, <<2, 3>>, <<>>, <<1, 3, 1>>},
            w \in {<<2>>, <<0>>, <<4>>, <<5>>, <<2, 2>>, <<0, 1>>, <<2, 4>>, <<3, 6>>, <<1, 2, 1>>, <<1, 2, 2>>}, st \in {<<1>>, <<0>>, <<2>>, <<1, 1>>, <<2, 0>>, <<1, 1, 2>>},
            pd \in PadS \cup {<<<<0, 0>>>>, <<<<0, 0>>, <<0, 0>>>>}, rd \in {"max", "mean", "median"}}
    \cup {Q("resize", <<T(s)>>, [size |-> z, mode |-> m, coord |-> co, near |-> ne], "f32") : s \in {<<3>>, <<2, 3, 2>>, <<1, 2, 2, 3>>, <<1, 1, 2, 2, 2>>},
            z \in {<<>>, <<2>>, <<3, 2>>, <<0, 2>>, <<2, 0>>, <<2, 3, 2>>}, m \in {"nearest", "linear", "area", ""}, co \in {"half_pixel", "align_corners", "corner"}, ne \in {"floor", "up", "round_prefer_floor"}}
\* element types outside the domain of an operation
NonFloat == "bool,i32,i64,i16,i8,u8,u16,u32,u64"
NotSigned == "bool,u8,u16,u32,u64"
NotInt == "bool,f32,f64,f16,bf16,f8e4m3,f8e5m2"
FloatUn == {"sqrt", "recip", "sigmoid", "hardsigmoid", "gelu", "softplus", "silu", "swish", "hardsilu", "hardswish", "mish", "selu", "celu", "sin", "cos", "tan", "asin", "acos", "atan",
            "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "exp", "exp2", "exp10", "ln", "log2", "log10", "ceil", "floor", "round", "isnan", "isinf", "isfinite"}
DX(op, shs, p, dts) == Q(op, [i \in 1..Len(shs) |-> TD(shs[i], "n", [k \in 1..Prod(shs[i]) |-> 1])], p, dts)
TypeReqs ==
    {DX(op, <<<<2, 3>>>>, NoP, NonFloat) : op \in FloatUn} \cup {DX(op, <<<<3>>>>, NoP, NotSigned) : op \in {"neg", "abs", "sign", "softsign", "relu"}}
    \cup {DX("square", <<<<3>>>>, NoP, "bool")} \cup {DX("bitwise_not", <<<<3>>>>, NoP, NotInt)}
    \cup {DX(op, <<<<2, 3>>, <<3>>>>, NoP, "bool") : op \in BinNum \cup {"lt", "le", "gt", "ge"}} \cup {DX(op, <<<<2, 3>>, <<3>>>>, NoP, NonFloat) : op \in {"div", "pow"}}
    \cup {DX(op, <<<<2, 3>>, <<3>>>>, NoP, NotInt) : op \in BinBit}
    \cup {DX(op, <<<<3>>>>, [c |-> 1], "bool") : op \in {"add_scalar", "sub_scalar", "mul_scalar", "rem_scalar", "maximum_scalar", "minimum_scalar", "lt_scalar", "le_scalar", "gt_scalar", "ge_scalar"}}
    \cup {DX(op, <<<<3>>>>, [c |-> 1], NonFloat) : op \in {"div_scalar", "pow_scalar", "leaky_relu", "elu", "prelu"}}
    \cup {DX(op, <<<<3>>>>, [k |-> 1], NotInt) : op \in {"shl_scalar", "shr_scalar"}}
    \cup {DX(op, <<<<2, 2>>, <<2, 2>>>>, NoP, "bool") : op \in {"matmul", "dot"}} \cup {DX(op, <<<<2, 2>>>>, NoP, "bool") : op \in {"det", "inv", "trace"}}
    \cup {DX(op, <<<<2, 3>>>>, [dims |-> <<1>>, keep |-> FALSE], "bool") : op \in {"sum", "prod", "max", "min"}}
    \cup {DX(op, <<<<2, 3>>>>, [dims |-> <<1>>, keep |-> FALSE], NonFloat) : op \in FloatRed \ {"l1_norm"}}
    \cup {DX("cumsum", <<<<3>>>>, [dim |-> 0], "bool"), DX("topk", <<<<3>>>>, [dim |-> 0, k |-> 1, largest |-> TRUE, sorted |-> TRUE], "bool"), DX("einsum", <<<<3>>>>, [eq |-> "a->"], "bool")}
    \cup {DX(op, <<<<3>>>>, [dim |-> 0], NonFloat) : op \in {"softmax", "log_softmax"}}
    \cup {DX("conv1d", <<<<1, 2, 3>>, <<1, 2, 2>>>>, [stride |-> 1, pad |-> 0, dil |-> 1], NonFloat), DX("conv2d", <<<<1, 2, 3, 2>>, <<1, 2, 2, 2>>>>, [stride |-> 1, pad |-> 0, dil |-> 1], NonFloat),
          DX("conv_transpose1d", <<<<1, 2, 3>>, <<2, 1, 2>>>>, [stride |-> 1, pad |-> 0, opad |-> 0, dil |-> 1], NonFloat)}
    \cup {DX("reduce_window", <<<<3>>>>, [win |-> <<2>>, str |-> <<1>>, pad |-> <<<<0, 0>>>>, red |-> rd], "bool") : rd \in {"max", "min", "sum"}}
    \cup {DX("reduce_window", <<<<3>>>>, [win |-> <<2>>, str |-> <<1>>, pad |-> <<<<0, 0>>>>, red |-> "mean"], NonFloat)}
    \cup {DX("resize", <<<<1, 1, 2, 2>>>>, [size |-> <<3, 3>>, mode |-> "nearest", coord |-> "half_pixel", near |-> "floor"], NonFloat)}
    \cup {Q(op, <<TD(<<3>>, "n", <<1, 1, 1>>), TD(<<2>>, "i", <<0, 1>>), TD(<<2>>, "n", <<1, 1>>)>>, [dim |-> 0], "bool") : op \in Scatters \ {"scatter"}}

Reqs == CASE Mode = "red" -> RedReqs [] Mode = "dim" -> DimReqs [] Mode = "idx" -> IdxReqs [] Mode = "sh" -> ShReqs [] Mode = "bin" -> BinReqs
          [] Mode = "join" -> JoinReqs [] Mode = "mat" -> MatReqs [] Mode = "ein" -> EinReqs [] Mode = "conv" -> ConvReqs [] Mode = "win" -> WinReqs
          [] Mode = "type" -> TypeReqs [] Mode = "einbad" -> EinBad
Outside == Mode \in {"type", "einbad"}
Pick(q) == IF Outside THEN TRUE ELSE IF Inside THEN Ok(q) ELSE ~Ok(q)
H(q) == SumSeq([i \in 1..Len(q.o) |-> Prod(q.o[i].s) + 3 * Len(q.o[i].s)]) + IF "dim" \in DOMAIN q.p THEN q.p.dim + 9 ELSE 0
Kind(q, i) == LET o == q.o[i] ks == <<"plain", "off", "step", "plain">> k == ks[1 + Hash(H(q) + i, i, 4)] IN IF k \in DressedKinds(o.s) THEN k ELSE "plain"
Value(o, i) == [s |-> o.s, d |-> IF o.d # <<>> THEN o.d ELSE [k \in 1..Prod(o.s) |-> IF o.t = "b" THEN Hash(i, k, 2) ELSE 1 + Hash(i, k, 3)]]
Init == req \in Reqs /\ Pick(req) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ LET os == TLCEval([i \in 1..Len(req.o) |-> Dressed(Kind(req, i), Value(req.o[i], i), 1)])
               c == ProgErr(os, [i \in 1..Len(req.o) |-> req.o[i].t], req.op, req.p, [dts |-> req.dts]) IN
           Export(c)
        /\ UNCHANGED req
Spec == Init /\ [][Next]_<<req, done>>
\* the requests outside and inside the domain are told apart by Ok alone, and a refused request has no result
Refused == (~Outside /\ ~Inside) => ~Ok(req)
=============================================================================
