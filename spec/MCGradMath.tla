----------------------------- MODULE MCGradMath -----------------------------
(* G01 over elementwise functions: unary, with a scalar, and of two broadcast operands. *)
EXTENDS MCMath, Grad
UnG == Funs \ {"ceil", "floor", "round", "sign", "isnan", "isinf", "isfinite"}
Fun2G == {"add", "sub", "mul", "div", "pow", "maximum", "minimum"}
Fun2sG == {"add_scalar", "sub_scalar", "mul_scalar", "div_scalar", "pow_scalar", "maximum_scalar", "minimum_scalar", "leaky_relu", "prelu", "elu"}
GReqs == CASE Mode = "un" -> {q \in UnReqs(FALSE) : q.op \in UnG} [] Mode = "bin" -> {q \in BinReqs(FALSE) : q.op \in Fun2G}
           [] Mode = "sc" -> {q \in ScReqs(FALSE) : q.op \in Fun2sG /\ ~(q.op = "div_scalar" /\ q.c = 4)} \* a zero divisor has no derivative
\* points inside the domain and off the kinks, no two operands equal
GPt(q, i, k) == LET h == Hash(q.s + 50 * i, k, 1000) IN
    CASE q.op \in {"asin", "acos", "atanh"} -> Q(2 * (h % 14) - 13, 16)
      [] q.op \in {"ln", "log2", "log10", "sqrt"} -> Q(2 * (h % 30) + 1, 16)
      [] q.op = "acosh" -> Q(2 * (h % 20) + 17, 16)
      [] q.op \in {"recip"} -> Q(2 * (h % 12) - 11, 8)
      [] q.op \in {"div"} /\ i = 2 -> Q(2 * (h % 12) - 11, 8)
      [] q.op = "tan" -> Q(2 * (h % 10) - 9, 8)
      [] q.op \in {"exp10", "exp2", "exp", "sinh", "cosh"} -> Q(2 * (h % 16) - 15, 16)
      [] q.op \in {"pow"} /\ i = 1 -> Q(2 * (h % 12) + 1, 8)
      [] q.op \in {"pow"} -> Q((h % 17) - 8, 4)
      [] q.op = "pow_scalar" -> IF q.c <= 6 THEN Q(2 * (h % 12) - 11, 8)
                                ELSE IF q.c \in {9, 10} THEN Q(2 * (h % 3) + 15, 16) ELSE Q(2 * (h % 12) + 1, 8)
      [] q.op \in {"softplus", "sigmoid", "silu", "swish", "mish", "gelu", "tanh", "softsign", "hardsigmoid", "hardsilu", "hardswish"} -> IF h % 6 = 0 THEN Q(2 * (h % 40) - 39, 2) ELSE Q(2 * (h % 32) - 31, 8)
      [] i = 2 -> Q(4 * (h % 16) - 31, 16)
      [] OTHER -> Q(2 * (h % 24) - 23, 8)
GInit == req \in GReqs /\ res = <<>> /\ todo = 1
GNext == /\ todo = 1
         /\ todo' = 0
         /\ LET o == TLCEval([i \in 1..Len(req.shapes) |-> Opnd(req.kinds[i], req.shapes[i], LAMBDA k : GPt(req, i, k))])
                so == Symb(o) r == TLCEval(Result(req, so)) ws == Weights(<<r>>, req.s)
                case == ProgT(so, Ns(o), req.op, IF req.m = "sc" THEN [c |-> ScSeq(req.op, req.sp)[req.c]] ELSE NoP, <<r>>,
                     [ask |-> Asks([i \in 1..Len(o) |-> TRUE], req.s), vals |-> Vals(o)]) IN
            /\ res' = r.s
            /\ Export([loss |-> LossAt(case, <<1>>, ws)] @@ case)
         /\ UNCHANGED req
GSpec == GInit /\ [][GNext]_<<vars, todo>>
=============================================================================
