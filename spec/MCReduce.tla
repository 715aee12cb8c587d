------------------------------ MODULE MCReduce ------------------------------
(* T04. A session reduces (scans, orders) an operand in a chosen layout over chosen axes. *)
EXTENDS Reduce
CONSTANTS Shapes, Mode, Streams, Nats
ShapesQuick == {<<>>, <<5>>, <<4, 1>>, <<2, 3, 2>>, <<11, 3>>}
ShapesMore == ShapesQuick \cup {<<2, 1, 3>>, <<3, 4>>, <<1>>, <<17>>, <<40>>, <<4, 9>>, <<2, 2, 3, 2>>, <<3, 2, 1, 2>>, <<1, 4, 1>>}
VARIABLES req, res
vars == <<req, res>>
\* axis lists for rank r: every subset ascending, some named from the end, some out of order
DimLists(r) == LET asc == {SortedSeq(S) : S \in SUBSET (0..r-1)} IN
    asc \cup {[i \in 1..Len(q) |-> q[i] - r] : q \in {x \in asc : Len(x) = 1}}
        \cup (IF r >= 2 THEN {<<r - 1, 0>>, <<-1, 0>>} ELSE {}) \cup (IF r >= 3 THEN {<<2, 0, 1>>, <<-1, -3>>} ELSE {})
ArgLists(r) == {q \in DimLists(r) : \A i \in 1..Len(q) : q[i] >= 0 /\ (i > 1 => q[i] > q[i-1])} \cup (IF r >= 1 THEN {<<-1>>} ELSE {})
IntReqs == UNION {UNION {{[m |-> "int", op |-> op, sh |-> sh, kind |-> k, dims |-> dl, keep |-> kp, s |-> s] :
             k \in KindsFor(sh), kp \in BOOLEAN, s \in Streams, dl \in IF op \in {"argmax", "argmin"} THEN ArgLists(Len(sh)) ELSE DimLists(Len(sh))} :
             op \in IntOps} : sh \in Shapes}
RealReqs == UNION {UNION {{[m |-> "real", op |-> op, sh |-> sh, kind |-> k, dims |-> dl, keep |-> kp, s |-> s] :
             k \in KindsFor(sh), kp \in BOOLEAN, s \in Streams, dl \in DimLists(Len(sh))} : op \in RealOps} : sh \in Shapes}
SpecReqs == UNION {{[m |-> "sp", op |-> op, sh |-> sh, kind |-> k, dims |-> dl, keep |-> TRUE, s |-> s] :
             k \in {"plain", "off"} \cap KindsFor(sh), s \in Streams, dl \in {<<>>} \cup (IF Len(sh) > 0 THEN {<<-1>>} ELSE {}),
             op \in {"sum", "mean", "logsumexp", "l1_norm", "l2_norm", "max", "min"}} : sh \in Shapes}
AlongReqs == UNION {{[m |-> "along", op |-> op, sh |-> sh, kind |-> k, dims |-> <<d>>, keep |-> FALSE, s |-> s] :
             k \in KindsFor(sh), s \in Streams, d \in Axes(Len(sh)), op \in {"cumsum", "softmax", "log_softmax"}} : sh \in {x \in Shapes : Len(x) > 0}}
TopReqs == UNION {UNION {{[m |-> "topk", op |-> "topk", sh |-> sh, kind |-> k, dims |-> <<d>>, keep |-> lg, s |-> s, k |-> kk, sorted |-> so] :
             k \in KindsFor(sh) \ {"bc"}, s \in Streams, lg \in BOOLEAN, so \in BOOLEAN, kk \in {1, (sh[Ax(d, Len(sh))] + 1) \div 2, sh[Ax(d, Len(sh))]}} :
             d \in Axes(Len(sh))} : sh \in {x \in Shapes : Len(x) > 0}}
AllReqs == UNION {{[m |-> "all", op |-> op, sh |-> sh, kind |-> k, dims |-> <<>>, keep |-> FALSE, s |-> s] :
             k \in KindsFor(sh), s \in Streams, op \in {"sum_all", "mean_all", "std_all", "var_all"}} : sh \in Shapes}
Targets(sh) == {SubSeq(q, n, Len(q)) : q \in {[i \in 1..Len(sh) |-> IF i \in S THEN 1 ELSE sh[i]] : S \in SUBSET (1..Len(sh))}, n \in 1..(Len(sh) + 1)}
ToShapeReqs == UNION {{[m |-> "tosh", op |-> "sum_to_shape", sh |-> sh, kind |-> k, dims |-> tg, keep |-> FALSE, s |-> s] :
             k \in KindsFor(sh), s \in Streams, tg \in Targets(sh)} : sh \in {x \in Shapes : Len(x) > 0}}
Reqs == CASE Mode = "int" -> IntReqs [] Mode = "real" -> RealReqs [] Mode = "sp" -> SpecReqs [] Mode = "along" -> AlongReqs \cup ToShapeReqs
          [] Mode = "topk" -> TopReqs \cup AllReqs

Signed == ~Nats
SmallInt(op, s, k) == LET h == Hash(s, k, 1000) IN
    CASE op = "prod" -> IF Nats THEN 1 + (IF h % 4 = 0 THEN 1 ELSE 0) ELSE (IF h % 2 = 0 THEN 1 ELSE -1) * (IF h % 5 = 0 THEN 2 ELSE 1)
      [] op \in {"any", "all"} -> IF s % 3 = 0 THEN (IF h % 9 = 0 THEN 1 ELSE 0) ELSE IF s % 3 = 1 THEN (IF h % 9 = 0 THEN 0 ELSE 1) ELSE h % 2
      [] op \in {"max", "min", "argmax", "argmin"} -> IF s % 2 = 0 THEN (h % 8) - (IF Nats THEN 0 ELSE 4) ELSE (h % 31) - (IF Nats THEN 0 ELSE 15)
      [] s % 4 = 3 -> IF h % 7 # 0 THEN 0 ELSE IF Nats \/ h % 2 = 0 THEN 1 ELSE -2        \* few and small
      [] OTHER -> IF Nats THEN h % 4 ELSE (h % 9) - 4
\* reals: moderate, or large offsets with small spread, or wide magnitudes for the exponentials
Real(op, s, k) == LET h == Hash(s, k, 1000) IN
    CASE op \in {"var", "std"} /\ s % 3 = 0 -> <<"/", 16384 + (h % 7), 4>>
      [] op \in {"logsumexp", "softmax", "log_softmax"} /\ s % 3 = 0 -> (h % 400) - 200
      [] op \in {"logsumexp", "softmax", "log_softmax"} /\ s % 3 = 1 -> 700 + (h % 9)
      [] op = "logsum" -> <<"/", 1 + (h % 13), 4>>
      [] op = "prod" -> <<"/", (IF h % 3 = 0 THEN -1 ELSE 1) * (3 + (h % 3)), 4>>
      [] OTHER -> <<"/", (h % 25) - 12, 4>>
PFor(q) == <<1, 2, 3, <<"/", 3, 2>>, <<"/", 5, 2>>, <<"/", 1, 2>>>>[1 + (Hash(q.s, Len(q.dims) * 7 + Prod(q.sh), 6))]
Perm(s, k) == (k * 37 + s * 11) % 127        \* distinct for k < 127
SpecialSeq == <<"inf", 1, -2, 3, "-inf", 0, 2, "nan">>
SpVal(op, s, k) == LET n == CASE s % 3 = 0 -> 4 [] s % 3 = 1 -> 7 [] OTHER -> 8
                       m == IF op \in {"max", "min"} THEN Min2(n, 7) ELSE n
                   IN IF s % 4 = 3 /\ op = "logsumexp" THEN "-inf" ELSE SpecialSeq[1 + Hash(s, k, m)]
Elt(q, k) == CASE q.m \in {"int", "tosh"} \/ q.op \in {"cumsum", "sum_all"} -> SmallInt(q.op, q.s, k)
               [] q.m = "topk" -> Perm(q.s, k) - (IF Nats \/ q.s % 2 = 0 THEN 0 ELSE 60)
               [] q.m = "sp" -> SpVal(q.op, q.s, k)
               [] OTHER -> Real(q.op, q.s, k)
AllOf(op) == CASE op = "mean_all" -> "mean" [] op = "std_all" -> "std" [] op = "var_all" -> "var" [] OTHER -> "sum"
SumTo(t, tg) == LET r == Len(t.s) n == r - Len(tg)
                    lead == IF n = 0 THEN t ELSE Red(t, [i \in 1..n |-> i - 1], FALSE, SumSeq)
                    ones == SortedSeq({i \in 1..Len(tg) : tg[i] = 1 /\ lead.s[i] > 1})
                IN IF ones = <<>> THEN lead ELSE Red(lead, [i \in 1..Len(ones) |-> ones[i] - 1], TRUE, SumSeq)
Results(q, t) ==
    CASE q.m = "int" -> <<Red(t, q.dims, q.keep, LAMBDA g : IntRed(q.op, g))>>
      [] q.m \in {"real", "sp"} -> <<Red(t, q.dims, q.keep, LAMBDA g : RealRed(q.op, g, PFor(q)))>>
      [] q.m = "all" -> <<Red(t, <<>>, FALSE, LAMBDA g : IF q.op = "sum_all" THEN SumSeq(g) ELSE RealRed(AllOf(q.op), g, 0))>>
      [] q.m = "tosh" -> <<SumTo(t, q.dims)>>
      [] q.op = "cumsum" -> <<CumSum(t, q.dims[1])>>
      [] q.op = "softmax" -> <<Along(t, q.dims[1], SoftMax)>>
      [] q.op = "log_softmax" -> <<Along(t, q.dims[1], LogSoftMax)>>
      [] q.m = "topk" -> TopK(t, q.k, q.dims[1], q.keep)
Param(q) == CASE q.m \in {"int", "real", "sp"} -> [dims |-> q.dims, keep |-> q.keep, p |-> PFor(q)]
              [] q.m = "along" -> [dim |-> q.dims[1]]
              [] q.m = "tosh" -> [shape |-> q.dims]
              [] q.m = "topk" -> [k |-> q.k, dim |-> q.dims[1], largest |-> q.keep, sorted |-> q.sorted]
              [] OTHER -> NoP
Unsorted(q) == q.m = "topk" /\ ~q.sorted /\ q.k > 1
Outs(q, r) == CASE q.op \in {"argmax", "argmin"} -> <<Tag(r[1], "i")>> [] q.op \in {"any", "all"} -> <<Tag(r[1], "b")>>
                [] q.m = "topk" -> IF Unsorted(q) THEN <<[s |-> r[1].s, d |-> <<>>], Tag([s |-> r[2].s, d |-> <<>>], "i")>> ELSE <<r[1], Tag(r[2], "i")>>
                [] OTHER -> r
Dts(q, f8) == CASE q.op \in {"argmax", "argmin", "any", "all"} -> IF q.op \in {"any", "all"} THEN "f32,bool,i32,u8,f64,i64,bf16,f16,f8e4m3,f8e5m2,i8,i16,u16,u32,u64" ELSE "f32,i32,u8,f64,i64,bf16,f16,f8e4m3,i8,i16,u16,u32,u64"
            [] q.op = "l1_norm" /\ q.m = "int" -> IF Nats THEN "f32,f64" ELSE IF f8 THEN "signed" ELSE "f32,f64,i64,i32,i16,i8,f16,bf16"
            [] Unsorted(q) -> IF Nats THEN "f32,f64,u16,u32,u64,i16,i32,i64" ELSE "f32,f64,i16,i32,i64"
            [] (q.m = "int" /\ q.op \in {"prod", "max", "min"}) \/ q.op = "topk" -> "num"
            [] q.m \in {"int", "tosh"} \/ q.op \in {"cumsum", "sum_all"} -> IF f8 THEN "num" ELSE "sumd"
            [] (q.op \in {"var", "std"} \/ q.op \in {"logsumexp", "softmax", "log_softmax"}) /\ q.s % 3 # 2 -> IF q.op \in {"var", "std"} /\ q.s % 3 = 1 THEN "float2" ELSE "float3"
            [] OTHER -> "float2"
N(q) == Prod(q.sh)
\* every partial sum is representable in the 8-bit floating types
F8Ok(q, t) == (q.m \in {"int", "tosh"} \/ q.op \in {"cumsum", "sum_all"}) /\ SumSeq([i \in 1..Len(t.d) |-> Abs(t.d[i])]) <= 8
Tols(q) == CASE q.m \in {"int", "topk", "tosh"} \/ q.op \in {"cumsum", "sum_all", "max", "min"} -> [tol |-> 0]
             [] q.m = "sp" -> [tol |-> 8, mag |-> 40, lowtol |-> 4, lowmag |-> 8]
             [] q.op \in {"softmax", "logsumexp"} -> [tol |-> 40, mag |-> 4, lowtol |-> 8, lowmag |-> 4]
             [] q.op = "log_softmax" -> [tol |-> 40, mag |-> 1000, lowtol |-> 8, lowmag |-> 8]
             [] q.op \in {"sum", "mean", "mean_all"} -> [tol |-> 4, mag |-> 4 * N(q), lowtol |-> 2, lowmag |-> 2 * N(q)]
             [] q.op \in {"var", "std", "var_all", "std_all"} -> [tol |-> 16, mag |-> 8, lowtol |-> 8, lowmag |-> 8]
             [] q.op = "logsum" -> [tol |-> 16, mag |-> 16, lowtol |-> 8, lowmag |-> 8]
             [] q.op = "norm" -> [tol |-> 64, mag |-> 0, lowtol |-> 16, lowmag |-> 0]
             [] OTHER -> [tol |-> 16, mag |-> 0, lowtol |-> 8, lowmag |-> 0]
More(q, o) == IF Unsorted(q) THEN TRUE ELSE FALSE
\* an unsorted top-k is checked as a set: its sum along the axis
WithSum(case, q, r) == [case EXCEPT !.steps = Append(@, [op |-> "sum", p |-> [dims |-> q.dims, keep |-> FALSE],
        in |-> <<Len(case.leaves) + Len(case.steps) - 1>>, outs |-> <<Red(r[1], q.dims, FALSE, SumSeq)>>])]
Init == req \in Reqs /\ res = <<>>
Next == /\ res = <<>>
        /\ LET o == TLCEval(<<Opnd(req.kind, req.sh, LAMBDA k : Elt(req, k))>>) r == TLCEval(Results(req, o[1].t))
               case == TLCEval(ProgT(o, Ns(o), req.op, Param(req), Outs(req, r), [dts |-> Dts(req, F8Ok(req, o[1].t))] @@ Tols(req))) IN
           /\ res' = r
           /\ Export(IF Unsorted(req) THEN WithSum(case, req, r) ELSE case)
        /\ UNCHANGED req
Spec == Init /\ [][Next]_vars
\* --- checked on the specification itself
Shaped == res # <<>> => \A i \in 1..Len(res) : Len(res[i].d) = Prod(res[i].s)
\* reducing axis by axis is reducing them together
Assoc == (res # <<>> /\ req.m = "int" /\ req.op \in {"sum", "max", "min", "prod"} /\ Len(req.dims) = 2 /\ req.keep) =>
    LET t == Opnd(req.kind, req.sh, LAMBDA k : Elt(req, k)).t IN
    Red(Red(t, <<req.dims[1]>>, TRUE, LAMBDA g : IntRed(req.op, g)), <<req.dims[2]>>, TRUE, LAMBDA g : IntRed(req.op, g)) = res[1]
\* the last element of a running sum is the sum
CumLast == (res # <<>> /\ req.op = "cumsum") => LET t == Opnd(req.kind, req.sh, LAMBDA k : Elt(req, k)).t a == Ax(req.dims[1], Len(req.sh)) IN
    Red(t, req.dims, FALSE, SumSeq) = Red(res[1], req.dims, FALSE, LAMBDA g : g[Len(g)])
=============================================================================
