------------------------------- MODULE MCMath -------------------------------
(* T03. Mathematical functions: an element is a real given as a term; the result at every
   coordinate is the function's definition applied to that element alone. *)
EXTENDS Elem
CONSTANTS Shapes, Mode, Streams
ShapesQuick == {<<>>, <<5>>, <<3, 4>>, <<2, 3, 2>>}
ShapesMore == {<<>>, <<1>>, <<7>>, <<17>>, <<3, 4>>, <<5, 9>>, <<2, 3, 2>>, <<2, 2, 3, 2>>}
VARIABLES req, res
vars == <<req, res>>
Q(n, d) == <<"/", n, d>>
F1(f, x) == <<f, x>>
Add(x, y) == <<"+", x, y>>
Sub(x, y) == <<"-", x, y>>
Mul(x, y) == <<"*", x, y>>
Dv(x, y) == <<"/", x, y>>
If(c, x, y) == <<"if", c, x, y>>
Sigm(x) == Dv(1, Add(1, F1("exp", F1("neg", x))))
SoftPlus(x) == Add(<<"max", x, 0>>, F1("ln1p", F1("exp", F1("neg", F1("abs", x)))))
HardSig(x) == <<"max", 0, <<"min", 1, Dv(Add(x, 3), 6)>>>>
SeluA == Add(Q(1673263242, 1000000000), Dv(Q(354377285, 1000000000), 1000000000))
SeluL == Add(Q(1050700987, 1000000000), Dv(Q(355480493, 1000000000), 1000000000))
\* the definition of each function
Def(op, x) ==
    CASE op \in {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp10",
                 "ln", "log2", "log10", "ceil", "floor", "round", "erf", "sqrt", "abs", "neg", "sign", "isnan", "isinf", "isfinite"} -> F1(op, x)
      [] op = "square" -> Mul(x, x)
      [] op = "recip" -> Dv(1, x)
      [] op = "softsign" -> Dv(x, Add(1, F1("abs", x)))
      [] op = "sigmoid" -> Sigm(x)
      [] op = "hardsigmoid" -> HardSig(x)
      [] op = "gelu" -> Mul(Mul(Q(1, 2), x), Add(1, F1("tanh", Mul(F1("sqrt", <<"/", 2, "pi">>), Add(x, Mul(Q(44715, 1000000), Mul(x, Mul(x, x))))))))
      [] op = "softplus" -> SoftPlus(x)
      [] op \in {"silu", "swish"} -> Mul(x, Sigm(x))
      [] op \in {"hardsilu", "hardswish"} -> Mul(x, HardSig(x))
      [] op = "mish" -> Mul(x, F1("tanh", SoftPlus(x)))
      [] op = "selu" -> Mul(SeluL, If(<<"<", 0, x>>, x, Mul(SeluA, F1("expm1", x))))
      [] op = "celu" -> If(<<"<", 0, x>>, x, F1("expm1", x))
      [] op = "relu" -> If(<<"<", 0, x>>, x, 0)
Funs == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp10",
         "ln", "log2", "log10", "ceil", "floor", "round", "erf", "sqrt", "abs", "neg", "sign", "isnan", "isinf", "isfinite", "square", "recip", "softsign",
         "sigmoid", "hardsigmoid", "gelu", "softplus", "silu", "swish", "hardsilu", "hardswish", "mish", "selu", "celu", "relu"}
BoolFuns == {"isnan", "isinf", "isfinite"}
\* finite points of the domain (and, for domain-restricted functions, beyond it)
Point(op, s, k) == LET h == Hash(s, k, 1000) IN
    CASE op \in {"asin", "acos", "atanh"} -> Q((h % 21) - 10, 8)
      [] op \in {"ln", "log2", "log10", "sqrt"} -> Q((h % 26) - 1, 4)
      [] op = "acosh" -> Q((h % 20) + 3, 4)
      [] op = "recip" -> Q((h % 17) - 8, 2)
      [] op \in {"ceil", "floor", "round"} -> Q((h % 33) - 16, 4)
      [] op \in {"exp10"} -> Q((h % 13) - 6, 4)
      [] op \in {"tan"} -> Q((h % 11) - 5, 4)
      [] op \in {"softplus", "sigmoid", "mish", "silu", "swish", "tanh", "erf", "gelu", "celu", "selu", "softsign"} -> IF h % 5 = 0 THEN ((h % 200) - 100) ELSE Q((h % 33) - 16, 4)
      [] OTHER -> Q((h % 25) - 12, 4)
\* special points; a function is only asked where its definition has an IEEE value
Specials(op) == {"nan"} \cup
    (IF op \in {"silu", "swish", "hardsilu", "hardswish", "mish", "gelu", "softsign"} THEN {0}
     ELSE IF op = "relu" THEN {"inf", "-inf", 0} ELSE {"inf", "-inf", "nz", 0})
SpecSeq(op) == <<"nan">> \o (IF op \in {"silu", "swish", "hardsilu", "hardswish", "mish", "gelu", "softsign"} THEN <<0, 1>>
                             ELSE <<"inf", "-inf", 0, "nz", 1>>)
\* relu(NaN) is left open (max(0, x) and x > 0 disagree there)
SpecPoint(op, s, k) == LET q == IF op \in {"relu", "sign"} THEN <<"inf", "-inf", 0, 2>> ELSE SpecSeq(op) IN q[1 + Hash(s, k, Len(q))]

\* two-argument functions on reals
Bin2(op, x, y) ==
    CASE op \in {"add", "add_scalar"} -> Add(x, y)
      [] op \in {"sub", "sub_scalar"} -> Sub(x, y)
      [] op \in {"mul", "mul_scalar"} -> Mul(x, y)
      [] op \in {"div", "div_scalar"} -> Dv(x, y)
      [] op \in {"rem", "rem_scalar"} -> <<"fmod", x, y>>
      [] op \in {"pow", "pow_scalar"} -> <<"pow", x, y>>
      [] op \in {"maximum", "maximum_scalar"} -> <<"max", x, y>>
      [] op \in {"minimum", "minimum_scalar"} -> <<"min", x, y>>
      [] op \in {"eq", "eq_scalar"} -> <<"=", x, y>>
      [] op \in {"ne", "ne_scalar"} -> <<"not", <<"=", x, y>>>>
      [] op \in {"lt", "lt_scalar"} -> <<"<", x, y>>
      [] op \in {"le", "le_scalar"} -> <<"<=", x, y>>
      [] op \in {"gt", "gt_scalar"} -> <<"<", y, x>>
      [] op \in {"ge", "ge_scalar"} -> <<"<=", y, x>>
      [] op = "leaky_relu" -> If(<<"<", 0, x>>, x, Mul(y, x))
      [] op = "prelu" -> If(<<"<", 0, x>>, x, Mul(y, x))
      [] op = "elu" -> If(<<"<", 0, x>>, x, Mul(y, F1("expm1", x)))
Fun2 == {"add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum", "eq", "ne", "lt", "le", "gt", "ge"}
Fun2s == {"add_scalar", "sub_scalar", "mul_scalar", "div_scalar", "rem_scalar", "pow_scalar", "maximum_scalar", "minimum_scalar",
          "eq_scalar", "ne_scalar", "lt_scalar", "le_scalar", "gt_scalar", "ge_scalar", "leaky_relu", "prelu", "elu"}
Bool2 == {"eq", "ne", "lt", "le", "gt", "ge", "eq_scalar", "ne_scalar", "lt_scalar", "le_scalar", "gt_scalar", "ge_scalar"}
Pt2(i, s, k) == LET h == Hash(s + 50 * i, k, 1000) IN Q((h % 17) - 8, IF h % 3 = 0 THEN 1 ELSE 2)
PowPt(i, s, k) == LET h == Hash(s + 50 * i, k, 1000) IN
    IF s % 2 = 0 THEN (IF i = 1 THEN Q((h % 12) + 1, 4) ELSE Q((h % 17) - 8, 4))        \* positive base, fractional exponent
    ELSE IF s % 4 = 1 THEN (IF i = 1 THEN Q((h % 9) - 4, 2) ELSE (h % 7) - 3)           \* any base, small integer exponent
    ELSE IF i = 1 THEN (IF h % 3 = 0 THEN -1 ELSE Q((h % 3) + 7, 8)) ELSE (h % 80) - 40 \* base near one, large integer exponent
Spec2 == <<"nan", "inf", "-inf", 0, "nz", 1, -2, 3>>
SpPt2(i, s, k) == Spec2[1 + Hash(s + 50 * i, k, 8)]
\* sign of zero is not compared; remaining undefined corners of pow and rem on specials are left to IEEE (pow, fmod of C)
Pt(op, i, s, k, special) == IF special THEN SpPt2(i, s, k) ELSE IF op \in {"pow"} THEN PowPt(i, s, k) ELSE Pt2(i, s, k)
ScC(op) == CASE op = "pow_scalar" -> <<0, 1, 2, 3, -1, -2, Q(1, 2), Q(-3, 2), 33, 40>>
             [] op \in {"leaky_relu", "prelu", "elu"} -> <<0, 1, Q(1, 4), Q(-1, 2)>>
             [] op = "rem_scalar" -> <<1, Q(3, 2), -2>>
             [] op = "div_scalar" -> <<1, Q(3, 2), -2, 0>>
             [] OTHER -> <<0, Q(3, 2), -2>>
ScS(op) == CASE op \in {"leaky_relu", "prelu", "elu"} -> <<>> [] OTHER -> <<"nan", "inf", "-inf", 0>>
ScSeq(op, sp) == IF sp THEN ScS(op) ELSE ScC(op)

UnReqs(sp) == UNION {{[m |-> "un", op |-> op, shapes |-> <<sh>>, kinds |-> <<k>>, s |-> s, sp |-> sp, c |-> 0] : op \in Funs, k \in KindsFor(sh), s \in Streams} : sh \in Shapes}
BinReqs(sp) == UNION {{[m |-> "bin", op |-> op, shapes |-> <<a, b>>, kinds |-> <<ka, kb>>, s |-> s, sp |-> sp, c |-> 0] :
              op \in Fun2, ka \in KindsFor(a), kb \in {"plain", "off", "bc"} \cap KindsFor(b), s \in Streams} : <<a, b>> \in {<<x, x>> : x \in Shapes} \cup {<<<<3, 4>>, <<4>>>>, <<<<3, 1>>, <<1, 5>>>>}}
ScReqs(sp) == UNION {UNION {{[m |-> "sc", op |-> op, shapes |-> <<a>>, kinds |-> <<ka>>, s |-> s, sp |-> sp, c |-> c] :
              ka \in KindsFor(a) \cap {"plain", "off", "trans"}, s \in Streams, c \in 1..Len(ScSeq(op, sp))} : op \in Fun2s} : a \in Shapes}
VARIABLES todo
Wants(m) == CASE m = "un" -> UnReqs(FALSE) [] m = "unsp" -> UnReqs(TRUE) [] m = "bin" -> BinReqs(FALSE) [] m = "binsp" -> BinReqs(TRUE)
              [] m = "sc" -> ScReqs(FALSE) [] m = "scsp" -> ScReqs(TRUE)
ScalarPow(op) == IF op = "pow_scalar" THEN "pow" ELSE op
Opd(q, i) == CASE q.m = "un" -> Opnd(q.kinds[i], q.shapes[i], LAMBDA k : IF q.sp THEN SpecPoint(q.op, q.s, k) ELSE Point(q.op, q.s, k))
              [] OTHER -> Opnd(q.kinds[i], q.shapes[i], LAMBDA k : IF q.m = "sc" /\ q.sp THEN Spec2[3 + Hash(q.s, k, 6)] ELSE IF q.m = "sc" THEN Pt2(i, q.s, k) ELSE Pt(q.op, i, q.s, k, q.sp))
Result(q, o) == CASE q.m = "un" -> Map(o[1].t, LAMBDA x : Def(q.op, x))
                  [] q.m = "bin" -> ZipT(o[1].t, o[2].t, LAMBDA x, y : Bin2(q.op, x, y))
                  [] q.m = "sc" -> Map(o[1].t, LAMBDA x : Bin2(q.op, x, ScSeq(q.op, q.sp)[q.c]))
IsB(op) == op \in BoolFuns \cup Bool2
Tols(q) == [tol |-> IF q.op \in {"pow", "pow_scalar"} THEN 64 ELSE IF q.op \in {"exp10", "tan", "gelu", "mish", "sinh", "cosh", "asinh", "acosh", "atanh"} THEN 24 ELSE IF IsB(q.op) THEN 0 ELSE 6,
            mag |-> IF q.op \in {"gelu", "selu", "sin", "cos", "mish"} THEN 4 ELSE 0,
            lowtol |-> IF IsB(q.op) THEN 0 ELSE 1, lowmag |-> 0]
Init == req \in Wants(Mode) /\ res = <<>> /\ todo = 1
Next == /\ todo = 1
        /\ todo' = 0
        /\ LET o == TLCEval([i \in 1..Len(req.shapes) |-> Opd(req, i)]) r == TLCEval(Result(req, o)) IN
           /\ res' = r.s
           /\ Export(ProgT(o, Ns(o), req.op, IF req.m = "sc" THEN [c |-> ScSeq(req.op, req.sp)[req.c]] ELSE NoP, <<Tag(r, IF IsB(req.op) THEN "b" ELSE "n")>>,
                     [dts |-> IF req.sp \/ req.m # "un" THEN "float2" ELSE "float"] @@ Tols(req)))
        /\ UNCHANGED req
Spec == Init /\ [][Next]_<<vars, todo>>
Shaped == todo = 0 => res = (IF req.m = "bin" THEN BShape(req.shapes[1], req.shapes[2]) ELSE req.shapes[1])
=============================================================================
