------------------------------- MODULE MCElem -------------------------------
(* T02. A session applies one elementwise operation to operands in chosen layouts; the
   result is the broadcast of the scalar function, whatever the layouts. *)
EXTENDS Elem
CONSTANTS Pairs, Ops, Streams, Mode
PairsQuick == {<<<<>>, <<>>>>, <<<<3>>, <<3>>>>, <<<<3>>, <<1>>>>, <<<<>>, <<2, 3>>>>, <<<<2, 3>>, <<2, 3>>>>, <<<<2, 3>>, <<3>>>>,
    <<<<2, 1>>, <<1, 3>>>>, <<<<2, 1, 2>>, <<2, 1>>>>, <<<<2, 3, 2>>, <<2, 3, 2>>>>, <<<<2>>, <<3, 1, 2>>>>, <<<<1, 2, 1, 2>>, <<2, 1, 3, 1>>>>,
    <<<<0>>, <<1>>>>, <<<<>>, <<2, 0>>>>, <<<<0, 3>>, <<3>>>>, <<<<2, 0>>, <<2, 1>>>>}
PairsMore == PairsQuick \cup {<<<<1>>, <<1>>>>, <<<<5>>, <<>>>>, <<<<4, 1>>, <<4, 5>>>>, <<<<1, 1, 3>>, <<2, 2, 1>>>>, <<<<2, 3, 2>>, <<1, 2>>>>,
    <<<<2, 2, 2, 2>>, <<2, 2, 2, 2>>>>, <<<<1, 2, 2, 1, 2>>, <<2, 1, 2>>>>, <<<<3, 1, 1, 1, 2>>, <<1, 2, 1, 2, 1>>>>, <<<<7>>, <<7>>>>, <<<<16>>, <<16>>>>, <<<<3, 8>>, <<3, 8>>>>, <<<<9, 1>>, <<1, 9>>>>}
PairsBad == {<<<<2>>, <<3>>>>, <<<<2, 3>>, <<2>>>>, <<<<2, 3>>, <<3, 2>>>>, <<<<2, 1, 3>>, <<2, 2>>>>, <<<<4>>, <<2, 3>>>>, <<<<1, 2>>, <<3, 1, 3>>>>, <<<<0>>, <<2>>>>, <<<<2, 0>>, <<0, 2>>>>}
VARIABLES req, res
vars == <<req, res>>
Operands(q) == [i \in 1..Len(q.shapes) |-> Opnd(q.kinds[i], q.shapes[i], LAMBDA k : Draw(q.op, i, q.s, k))]
\* --- requests
BinReqs(P) == UNION {{[m |-> "bin", op |-> op, shapes |-> sp, kinds |-> <<ka, kb>>, s |-> s] :
              op \in Ops \cap BinOps, ka \in KindsFor(sp[1]), kb \in KindsFor(sp[2]), s \in Streams} : sp \in P}
ShapesOfPairs == {p[1] : p \in Pairs} \cup {p[2] : p \in Pairs}
UnReqs == UNION {{[m |-> "un", op |-> op, shapes |-> <<sh>>, kinds |-> <<k>>, s |-> s] : op \in UnOps, k \in KindsFor(sh), s \in Streams} : sh \in ShapesOfPairs}
ScReqs == UNION {UNION {{[m |-> "sc", op |-> op, shapes |-> <<sh>>, kinds |-> <<k>>, s |-> s, c |-> c] : k \in KindsFor(sh), s \in Streams, c \in ScParams(op)} :
            op \in ScOps} : sh \in ShapesOfPairs}
ShiftReqs == UNION {{[m |-> "shift", op |-> op, shapes |-> <<sh>>, kinds |-> <<k>>, s |-> s, c |-> c] :
            op \in {"shl_scalar", "shr_scalar"}, k \in KindsFor(sh), s \in Streams, c \in 0..4} : sh \in ShapesOfPairs}
NotReqs == UNION {{[m |-> "notu", op |-> "bitwise_not", shapes |-> <<sh>>, kinds |-> <<k>>, s |-> 1] : k \in KindsFor(sh)} : sh \in ShapesOfPairs}
ClampReqs == UNION {{[m |-> "clamp", op |-> "clamp", shapes |-> <<sh>>, kinds |-> <<k>>, s |-> s, lo |-> lo, hi |-> hi] :
            k \in KindsFor(sh), s \in Streams, lo \in {-2, 0, 1}, hi \in {1, 3}} : sh \in ShapesOfPairs}
\* both operands of an elementwise operation, expanded to the shape it works on
PairReqs == UNION {{[m |-> "pair", op |-> "broadcast_pair", shapes |-> sp, kinds |-> <<ka, kb>>, s |-> 1] : ka \in KindsFor(sp[1]), kb \in KindsFor(sp[2])} :
            sp \in Pairs \cup {<<q[2], q[1]>> : q \in Pairs}}
\* where3(x, cond, y): three-way broadcasting; masked_fill(x, mask)
Bc3(a, b, c) == BOk(a, b) /\ BOk(BShape(a, b), c)
SelReqs == UNION {UNION {{[m |-> "sel", op |-> "where3", shapes |-> <<sp[1], sp[2], third>>, kinds |-> <<ka, kb, kc>>, s |-> s] :
            ka \in KindsFor(sp[1]) \ {"step"}, kb \in KindsFor(sp[2]) \ {"off"}, kc \in {"plain"} \cup (KindsFor(third) \cap {"trans", "off"}), s \in Streams} :
            third \in {sp[1], sp[2], <<>>, <<2, 1>>} } : sp \in Pairs}
FillReqs == UNION {{[m |-> "fill", op |-> "masked_fill", shapes |-> sp, kinds |-> <<ka, kb>>, s |-> s, c |-> c] :
            ka \in KindsFor(sp[1]), kb \in KindsFor(sp[2]), s \in Streams, c \in {0, 3}} : sp \in Pairs}
BadReqs == UNION {{[m |-> "bad", op |-> op, shapes |-> sp, kinds |-> <<"plain", kb>>, s |-> 1] : op \in Ops \cap BinOps, kb \in {"plain", "off"} \cap KindsFor(sp[2])} : sp \in PairsBad}
        \cup {[m |-> "bad", op |-> op, shapes |-> <<sp[2], sp[1]>>, kinds |-> <<"plain", "plain">>, s |-> 1] : op \in Ops \cap BinOps, sp \in PairsBad}
        \cup {[m |-> "bad", op |-> "broadcast_pair", shapes |-> sp, kinds |-> <<"plain", "plain">>, s |-> 1] : sp \in PairsBad \cup {<<q[2], q[1]>> : q \in PairsBad}}
Reqs == CASE Mode = "bin" -> BinReqs(Pairs)
          [] Mode = "un" -> UnReqs \cup PairReqs \cup ScReqs \cup ShiftReqs \cup NotReqs \cup ClampReqs
          [] Mode = "sel" -> {q \in SelReqs : Bc3(q.shapes[2], q.shapes[1], q.shapes[3])} \cup FillReqs
          [] Mode = "bad" -> BadReqs

T3(c, x, y) == LET sh == TLCEval(BShape(BShape(c.s, x.s), y.s)) IN
    Build(sh, LAMBDA ix : IF Truth(At(c, BIdx(ix, c.s))) THEN At(x, BIdx(ix, x.s)) ELSE At(y, BIdx(ix, y.s)))
MaskTag(q) == IF q.s % 2 = 0 THEN "b" ELSE "n"
MaskOpnd(q, i) == Opnd(q.kinds[i], q.shapes[i], LAMBDA k : Hash(q.s + 7, k, 2))
\* what the operation denotes
Result(q, o) ==
    CASE q.m = "bin" -> ZipT(o[1].t, o[2].t, LAMBDA a, b : Bin(q.op, a, b))
      [] q.m = "un" -> Map(o[1].t, LAMBDA a : Un(q.op, a))
      [] q.m = "notu" -> Map(o[1].t, LAMBDA a : 255 - a)
      [] q.m = "sc" -> Map(o[1].t, LAMBDA a : Sc(q.op, a, q.c))
      [] q.m = "shift" -> Map(o[1].t, LAMBDA a : Bin(IF q.op = "shl_scalar" THEN "shl" ELSE "shr", a, q.c))
      [] q.m = "clamp" -> Map(o[1].t, LAMBDA a : Min2(Max2(a, q.lo), q.hi))
      [] q.m = "sel" -> T3(o[2].t, o[1].t, o[3].t)
      [] q.m = "pair" -> ZipT(o[1].t, o[2].t, LAMBDA a, b : a)
      [] q.m = "fill" -> T3(o[2].t, [s |-> o[1].t.s, d |-> [k \in 1..Len(o[1].t.d) |-> q.c]], o[1].t)
Ops3(q) == IF q.m \in {"sel", "fill"} THEN [i \in 1..Len(q.shapes) |-> IF i = 2 THEN MaskOpnd(q, 2) ELSE Opnd(q.kinds[i], q.shapes[i], LAMBDA k : Draw("x", i, q.s, k))]
           ELSE IF q.m = "notu" THEN <<Opnd(q.kinds[1], q.shapes[1], LAMBDA k : Hash(3, k, 256))>>
           ELSE Operands(q)
Tags(q) == IF q.m \in {"sel", "fill"} THEN [i \in 1..Len(q.shapes) |-> IF i = 2 THEN MaskTag(q) ELSE "n"] ELSE [i \in 1..Len(q.shapes) |-> "n"]
Param(q) == CASE q.m = "sc" -> [c |-> q.c] [] q.m = "shift" -> [k |-> q.c] [] q.m = "fill" -> [c |-> q.c]
              [] q.m = "clamp" -> [lo |-> q.lo, hi |-> q.hi] [] OTHER -> NoP
Dts(q) == IF q.m = "notu" THEN "u8" ELSE IF q.m = "un" /\ q.op = "bitwise_not" THEN "i32,i64,i16,i8"
          ELSE IF q.op = "broadcast_pair" THEN "num" ELSE IF q.m = "bad" THEN DtsOf(q.op) ELSE IF q.m \in {"sel", "fill"} THEN "num" ELSE DtsOf(q.op)
\* pow is computed in floating point by every type; the others are exact on these values
Tol(q) == IF q.op \in {"pow", "pow_scalar", "rem", "rem_scalar"} THEN 1 ELSE 0
Init == req \in Reqs /\ res = [s |-> <<-1>>, d |-> <<>>]
Next == /\ res.s = <<-1>>
        /\ LET o == TLCEval(Ops3(req)) IN
           IF req.m = "bad"
           THEN /\ ~BOk(req.shapes[1], req.shapes[2])
                /\ res' = [s |-> <<-2>>, d |-> <<>>]
                /\ Export(ProgErr(o, Tags(req), req.op, NoP, [dts |-> Dts(req)]))
           ELSE LET r == TLCEval(Result(req, o)) IN
                /\ res' = r
                /\ Export(ProgT(o, Tags(req), req.op, Param(req),
                        IF req.m = "pair" THEN <<Tag(r, "n"), Tag(ZipT(o[1].t, o[2].t, LAMBDA a, b : b), "n")>> ELSE <<Tag(r, ResTag(req.op))>>, [dts |-> Dts(req), tol |-> Tol(req)]))
        /\ UNCHANGED req
Spec == Init /\ [][Next]_vars
\* the result has the broadcast shape and one element per coordinate
Shaped == res.s \in {<<-1>>, <<-2>>} \/ (Len(res.d) = Prod(res.s) /\
            (req.m \in {"bin", "pair"} => res.s = BShape(req.shapes[1], req.shapes[2])))
\* swapping the operands of a commutative operation leaves the result unchanged
Commutes == (req.m = "bin" /\ req.op \in {"add", "mul", "maximum", "minimum", "eq", "ne", "logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor"} /\ res.s # <<-1>>)
            => LET o == Operands(req) IN ZipT(o[2].t, o[1].t, LAMBDA a, b : Bin(req.op, a, b)) = res
OpsAll == BinOps
=============================================================================
