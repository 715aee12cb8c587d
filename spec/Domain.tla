------------------------------- MODULE Domain -------------------------------
(* T07: the domain of every tensor operation.  A request names an operation, its operands [s: shape, t: element type tag,
   d: data or <<>> when any data will do] and its parameters; Ok(q) says whether the operation is defined for it.  Every
   request outside the domain has to be refused with an error and leave the operands as they were. *)
EXTENDS Dress, Integers, Sequences, FiniteSets, TLC

Set(q) == {q[i] : i \in 1..Len(q)}
T(s) == [s |-> s, t |-> "n", d |-> <<>>]
TT_(s, t) == [s |-> s, t |-> t, d |-> <<>>]
TD(s, t, d) == [s |-> s, t |-> t, d |-> d]
NormAx(dims, r) == [i \in 1..Len(dims) |-> Ax(dims[i], r)]
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
InR(dims, r) == \A i \in 1..Len(dims) : dims[i] \in Axes(r)
S1(q) == q.o[1].s
R1(q) == Len(S1(q))
DimOk(q) == q.p.dim \in Axes(R1(q))
Dim(q) == S1(q)[Ax(q.p.dim, R1(q))]
SameT(q) == \A i \in 1..Len(q.o) : q.o[i].t = q.o[1].t

\* elements chosen by a slice, as in Python, bounds clamped; 99: no end
SliceCount(n, a, e, st) ==
    IF st = 0 THEN 0
    ELSE IF st > 0 THEN LET x == IF a < 0 THEN Max2(a + n, 0) ELSE Min2(a, n)
                            y == IF e = 99 THEN n ELSE IF e < 0 THEN Max2(e + n, 0) ELSE Min2(e, n)
                        IN IF x < y THEN y - x ELSE 0
    ELSE LET x == Min2(IF a < 0 THEN a + n ELSE a, n - 1)
             y == IF e = 99 THEN -1 ELSE Max2(IF e < 0 THEN e + n ELSE e, -1)
         IN IF x > y THEN x - y ELSE 0

IdxIn(o, n) == \A k \in 1..Len(o.d) : o.d[k] >= -n /\ o.d[k] < n
RestSame(a, b, ax) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : k # ax => a[k] = b[k]

MatOk(a, b) == LET m == Len(a) n == Len(b) IN
    CASE m = 0 \/ n = 0 -> FALSE
      [] m = 1 /\ n = 1 -> a[1] = b[1]
      [] m = 2 /\ n = 1 -> a[2] = b[1]
      [] m = 1 /\ n = 2 -> a[1] = b[1]
      [] m = 1 \/ n = 1 -> FALSE
      [] OTHER -> a[m] = b[n - 1] /\ BOk(SubSeq(a, 1, m - 2), SubSeq(b, 1, n - 2))
Square(a) == Len(a) >= 2 /\ a[Len(a)] = a[Len(a) - 1]

\* convolutions over Len(s) - 2 spatial dimensions
ConvRank(op) == CASE op \in {"conv1d", "conv_transpose1d", "conv1d_grad_weight", "conv_transpose1d_grad_weight"} -> 3
                  [] op \in {"conv2d", "conv_transpose2d", "conv2d_grad_weight", "conv_transpose2d_grad_weight"} -> 4
                  [] OTHER -> 5
ConvOut(l, k, st, pd, dl) == IF l + 2 * pd < dl * (k - 1) + 1 THEN 0 ELSE ((l + 2 * pd - dl * (k - 1) - 1) \div st) + 1
ConvOk(q) == LET x == S1(q) w == q.o[2].s r == ConvRank(q.op) IN
    /\ Len(x) = r /\ Len(w) = r /\ SameT(q) /\ q.p.stride >= 1 /\ q.p.dil >= 1 /\ x[2] = w[2]
    /\ \A k \in 3..r : ConvOut(x[k], w[k], q.p.stride, q.p.pad, q.p.dil) >= 1
ConvTrOk(q) == LET x == S1(q) w == q.o[2].s r == ConvRank(q.op) IN
    /\ Len(x) = r /\ Len(w) = r /\ SameT(q) /\ q.p.stride >= 1 /\ q.p.dil >= 1 /\ x[2] = w[1]
    /\ \A k \in 3..r : (x[k] - 1) * q.p.stride - 2 * q.p.pad + q.p.dil * (w[k] - 1) + 1 + q.p.opad >= 1
GradWOk(q) == LET x == S1(q) g == q.o[2].s w == q.p.wshape r == ConvRank(q.op) IN
    /\ Len(x) = r /\ Len(g) = r /\ Len(w) = r /\ SameT(q) /\ q.p.stride >= 1 /\ q.p.dil >= 1
    /\ x[1] = g[1] /\ w[2] = x[2] /\ w[1] = g[2]
    /\ \A k \in 3..r : ConvOut(x[k], w[k], q.p.stride, q.p.pad, q.p.dil) = g[k]

\* einsum: p.ins labels of every operand, p.out labels of the result
Letter(c) == <<"a", "b", "c", "d">>[c]
RECURSIVE Lets(_)
Lets(q) == IF q = <<>> THEN "" ELSE Letter(q[1]) \o Lets(Tail(q))
EqStr(ins, out) == (IF Len(ins) = 1 THEN Lets(ins[1]) ELSE Lets(ins[1]) \o "," \o Lets(ins[2])) \o "->" \o Lets(out)
EinOk(q) == LET ins == q.ins ss == [i \in 1..Len(q.o) |-> q.o[i].s]
                all == UNION {Set(ins[i]) : i \in 1..Len(ins)} IN
    /\ Len(ins) = Len(q.o) /\ \A i \in 1..Len(ins) : Len(ins[i]) = Len(ss[i])
    /\ \A i, j \in 1..Len(ins) : \A a \in 1..Len(ins[i]) : \A b \in 1..Len(ins[j]) : ins[i][a] = ins[j][b] => ss[i][a] = ss[j][b]
    /\ Set(q.out) \subseteq all /\ Distinct(q.out)

RedOps == {"sum", "mean", "max", "min", "prod", "std", "var", "l2_norm", "l1_norm", "logsum", "logsumexp", "argmax", "argmin", "any", "all"}
BinNum == {"add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum"}
BinCmp == {"eq", "ne", "lt", "le", "gt", "ge"}
BinLog == {"logical_and", "logical_or", "logical_xor"}
BinBit == {"bitwise_and", "bitwise_or", "bitwise_xor", "shl", "shr"}
Scatters == {"scatter", "scatter_add", "scatter_max", "scatter_min"}
Pads == {"pad_constant", "pad_reflect", "pad_replicate", "pad_edge", "pad_circular", "pad_wrap"}

Ok(q) ==
    CASE q.op \in RedOps -> InR(q.p.dims, R1(q)) /\ Distinct(NormAx(q.p.dims, R1(q)))
      [] q.op = "flip" -> InR(q.p.dims, R1(q))
      [] q.op = "squeeze" -> InR(q.p.dims, R1(q)) /\ Distinct(NormAx(q.p.dims, R1(q))) /\ \A i \in 1..Len(q.p.dims) : S1(q)[Ax(q.p.dims[i], R1(q))] = 1
      [] q.op \in {"cumsum", "softmax", "log_softmax"} -> DimOk(q)
      [] q.op = "topk" -> DimOk(q) /\ q.p.k <= Dim(q)
      [] q.op = "unsqueeze" -> q.p.dim \in Axes(R1(q) + 1)
      [] q.op = "slice" -> DimOk(q) /\ SliceCount(Dim(q), q.p.start, q.p.end, q.p.step) > 0
      [] q.op = "split" -> DimOk(q) /\ SumSeq(q.p.sizes) = Dim(q)
      [] q.op = "chunk" -> DimOk(q) /\ q.p.n >= 1
      [] q.op = "onehot" -> /\ q.p.axis \in Axes(R1(q) + 1) /\ q.p.n >= 0 /\ q.o[1].t = "i"
      [] q.op = "compress" -> /\ q.o[2].t = "b" /\ Len(q.o[2].s) = 1
                              /\ IF q.p.axis = 99 THEN q.o[2].s[1] = Prod(S1(q)) ELSE q.p.axis \in Axes(R1(q)) /\ q.o[2].s[1] = S1(q)[Ax(q.p.axis, R1(q))]
      [] q.op = "index_select" -> DimOk(q) /\ q.o[2].t = "i" /\ IdxIn(q.o[2], Dim(q))
      [] q.op = "index_put" -> /\ DimOk(q) /\ q.o[2].t = "i" /\ Len(q.o[2].s) = 1 /\ IdxIn(q.o[2], Dim(q)) /\ q.o[3].t = q.o[1].t
                               /\ q.o[3].s = [S1(q) EXCEPT ![Ax(q.p.dim, R1(q))] = q.o[2].s[1]]
      [] q.op = "gather" -> /\ DimOk(q) /\ q.o[2].t = "i" /\ Len(q.o[2].s) = R1(q)
                            /\ \A k \in 1..R1(q) : k # Ax(q.p.dim, R1(q)) => q.o[2].s[k] <= S1(q)[k]
                            /\ IdxIn(q.o[2], Dim(q))
      [] q.op \in Scatters -> /\ DimOk(q) /\ q.o[2].t = "i" /\ Len(q.o[2].s) = R1(q) /\ q.o[3].t = q.o[1].t
                              /\ \A k \in 1..R1(q) : k # Ax(q.p.dim, R1(q)) => q.o[2].s[k] <= S1(q)[k]
                              /\ IdxIn(q.o[2], Dim(q)) /\ q.o[3].s = q.o[2].s
      [] q.op \in {"reshape", "view"} -> Prod(q.p.shape) = Prod(S1(q))
      [] q.op = "broadcast" -> CanBroadcastTo(S1(q), q.p.shape)
      [] q.op = "sum_to_shape" -> CanBroadcastTo(q.p.shape, S1(q))
      [] q.op = "repeat" -> Len(q.p.n) = R1(q)
      [] q.op = "permute" -> Len(q.p.axes) = R1(q) /\ InR(q.p.axes, R1(q)) /\ Distinct(NormAx(q.p.axes, R1(q)))
      [] q.op = "transpose" -> R1(q) >= 2 /\ q.p.a \in Axes(R1(q)) /\ q.p.b \in Axes(R1(q))
      [] q.op \in BinNum \cup BinCmp \cup BinLog \cup BinBit -> SameT(q) /\ BOk(S1(q), q.o[2].s)
      [] q.op = "where3" -> q.o[3].t = q.o[1].t /\ BOk(S1(q), q.o[2].s) /\ BOk(BShape(S1(q), q.o[2].s), q.o[3].s)
      [] q.op = "masked_fill" -> BOk(S1(q), q.o[2].s) \* a mask of any element type: true where not zero
      [] q.op = "concat" -> DimOk(q) /\ SameT(q) /\ \A i \in 2..Len(q.o) : RestSame(S1(q), q.o[i].s, Ax(q.p.dim, R1(q)))
      [] q.op = "stack" -> q.p.dim \in Axes(R1(q) + 1) /\ SameT(q) /\ \A i \in 2..Len(q.o) : q.o[i].s = S1(q)
      [] q.op = "matmul" -> SameT(q) /\ MatOk(S1(q), q.o[2].s)
      [] q.op = "dot" -> SameT(q) /\ Len(S1(q)) <= 2 /\ Len(q.o[2].s) <= 2 /\ MatOk(S1(q), q.o[2].s)
      [] q.op = "solve" -> SameT(q) /\ Square(S1(q)) /\ IF Len(q.o[2].s) = 1 THEN q.o[2].s[1] = S1(q)[R1(q)] ELSE MatOk(S1(q), q.o[2].s)
      [] q.op \in {"det", "inv", "trace"} -> Square(S1(q))
      [] q.op = "einsum" -> SameT(q) /\ EinOk(q)
      [] q.op \in {"conv1d", "conv2d", "conv3d"} -> ConvOk(q)
      [] q.op \in {"conv_transpose1d", "conv_transpose2d", "conv_transpose3d"} -> ConvTrOk(q)
      [] q.op \in {"conv1d_grad_weight", "conv2d_grad_weight", "conv3d_grad_weight"} -> GradWOk(q)
      [] q.op \in Pads -> Len(q.p.pad) = R1(q)
      [] q.op = "pad" -> Len(q.p.pad) = R1(q) /\ q.p.mode \in {"constant", "reflect", "replicate", "edge", "circular", "wrap"}
      [] q.op = "reduce_window" -> /\ Len(q.p.win) = R1(q) /\ Len(q.p.str) = R1(q) /\ Len(q.p.pad) = R1(q)
                                   /\ q.p.red \in {"max", "mean", "sum", "min"}
                                   /\ \A k \in 1..R1(q) : q.p.win[k] >= 1 /\ q.p.str[k] >= 1 /\ q.p.win[k] <= S1(q)[k] + q.p.pad[k][1] + q.p.pad[k][2]
      [] q.op = "resize" -> /\ R1(q) \in {4, 5} /\ Len(q.p.size) = R1(q) - 2 /\ \A k \in 1..Len(q.p.size) : q.p.size[k] >= 1
                            /\ q.p.mode \in {"nearest", "linear", "bilinear", "trilinear", "cubic", "bicubic"} /\ q.p.coord \in {"half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"}
                            /\ q.p.near \in {"floor", "ceil", "round_prefer_floor", "round_prefer_ceil"}
=============================================================================
