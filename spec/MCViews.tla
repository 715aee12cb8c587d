------------------------------ MODULE MCViews ------------------------------
(* T01. State machine of one tensor under view operations: `t` is what the chain of
   operations denotes; (mem, lay) is the design the library follows (shared memory,
   shape/strides/offset, copied only when an operation needs row-major input).
   LayoutDenotes is the property at design level; every complete program is exported
   for replay on the real code. *)
EXTENDS Views, Json, CSV, IOUtils
CONSTANTS Shapes, Depth, Sim
OutFile == IOEnv.OUT
ShapesSmall == {<<4>>, <<2,3>>, <<1,3>>, <<2,1,2>>}
ShapesTiny == {<<3>>, <<2,2>>, <<1,2>>}
ShapesQuick == {<<3>>, <<1,2>>}
ShapesMany == {<<>>, <<1>>, <<4>>, <<5>>, <<7>>, <<2,3>>, <<3,4>>, <<3,1>>, <<1,1>>, <<4,2>>, <<2,1,2>>, <<2,3,2>>, <<2,2,2>>, <<1,4,2>>, <<2,2,1,3>>, <<1,2,2,2,2>>}
VARIABLES t, mem, lay, prog, leaf
vars == <<t, mem, lay, prog, leaf>>

\* ---- layout design
LayOf(sh) == [s |-> sh, st |-> RM(sh), o |-> 0]
Contig(l) == l.st = RM(l.s)
Denote(m, l) == Build(l.s, LAMBDA ix : m[l.o + SumSeq([i \in 1..Len(ix) |-> ix[i] * l.st[i]]) + 1])
\* every operation works on a row-major layout; a strided one is copied first
Norm(m, l) == IF Contig(l) THEN [m |-> m, l |-> l] ELSE [m |-> Denote(m, l).d, l |-> LayOf(l.s)]
LaySlice(l, p) == LET i == Ax(p.dim, Len(l.s)) n == l.s[i] IN
    [s |-> Set1(l.s, i, SlLen(p.start, p.end, n, p.step)),
     st |-> Set1(l.st, i, l.st[i] * p.step),
     o |-> l.o + SlStart(p.start, n, p.step) * l.st[i]]
LayBroadcast(l, sh) == LET r == Len(sh) k == r - Len(l.s) IN
    [s |-> sh, st |-> [i \in 1..r |-> IF i <= k THEN 0 ELSE IF l.s[i-k] = sh[i] THEN l.st[i-k] ELSE 0], o |-> l.o]
\* row-major restatement of the same memory with another shape
LayShape(l, sh) == [s |-> sh, st |-> RM(sh), o |-> l.o]
\* the design of one operation on (mem, lay)
LayApply(op, m0, l0, p) ==
    LET c == Norm(m0, l0) m == c.m l == c.l r == Len(l.s)
        fresh(x) == [m |-> x.d, l |-> LayOf(x.s)] IN
    CASE op = "reshape" -> [m |-> m, l |-> LayShape(l, p.shape)]
      [] op = "flatten" -> [m |-> m, l |-> LayShape(l, <<Prod(l.s)>>)]
      [] op = "squeeze" -> [m |-> m, l |-> LayShape(l, SqueezeShape(l.s, p.dims))]
      [] op = "unsqueeze" -> [m |-> m, l |-> LayShape(l, UnsqueezeShape(l.s, p.dim))]
      [] op = "broadcast" -> [m |-> m, l |-> LayBroadcast(l, p.shape)]
      [] op = "transpose" -> LET i == Ax(p.a, r) j == Ax(p.b, r) sw(q) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
                             IN [m |-> m, l |-> [s |-> sw(l.s), st |-> sw(l.st), o |-> l.o]]
      [] op = "permute" -> LET px == [i \in 1..r |-> Ax(p.axes[i], r)]
                           IN [m |-> m, l |-> [s |-> [i \in 1..r |-> l.s[px[i]]], st |-> [i \in 1..r |-> l.st[px[i]]], o |-> l.o]]
      \* strides are never negative: a descending slice is the ascending one, reversed
      [] op = "slice" -> IF p.step > 0 THEN [m |-> m, l |-> LaySlice(l, p)] ELSE
            LET i == Ax(p.dim, r) n == l.s[i] k == SlLen(p.start, p.end, n, p.step)
                hi == SlStart(p.start, n, p.step)
                lo == hi + (k-1) * p.step
                up == LaySlice(l, [dim |-> p.dim, start |-> lo, end |-> hi + 1, step |-> -p.step])
            IN fresh(Flip(Denote(m, up), <<p.dim>>))
      [] op = "flip" -> fresh(Flip(Denote(m, l), p.dims))
      [] op = "repeat" -> fresh(Repeat(Denote(m, l), p.n))
      [] op = "contiguous" -> [m |-> m, l |-> l]

Init == \E sh \in (IF Sim THEN {RandomElement(Shapes)} ELSE Shapes) :
    /\ t = Iota(sh, 0) /\ leaf = t /\ mem = t.d /\ lay = LayOf(sh) /\ prog = <<>>

Step(op, p) == LET u == TLCEval(ViewApply(op, t, p)) c == TLCEval(LayApply(op, mem, lay, p)) IN
    /\ t' = u /\ mem' = c.m /\ lay' = c.l
    /\ prog' = Append(prog, [op |-> op, p |-> p, outs |-> <<u>>])
    /\ UNCHANGED leaf

Emit(pr) == CSVWrite("%1$s", <<ToJson([leaves |-> <<leaf>>, dts |-> "tok", steps |-> pr])>>, OutFile)

Next == /\ Len(prog) < Depth
        /\ IF Sim
           THEN \E op \in {RandomElement(ViewOps)} :
                  LET P == ViewRand(op, t) IN
                  IF P = {} THEN Step("contiguous", [z |-> 0]) ELSE \E p \in {RandomElement(P)} : Step(op, p)
           ELSE \E op \in ViewOps : \E p \in ViewParams(op, t) : Step(op, p)
        /\ (Len(prog') = Depth) => Emit(prog')
Spec == Init /\ [][Next]_vars

LayoutDenotes == LET v == Denote(mem, lay) IN v.s = t.s /\ v.d = t.d
Sized == Len(t.d) = Prod(t.s)
===========================================================================
