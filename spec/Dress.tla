------------------------------- MODULE Dress -------------------------------
(* Operands in every memory layout. An operand is a tensor value together with the
   way it was obtained: a fresh leaf, or a view (offset, stride, transposition,
   broadcast) of a larger leaf. The value is what matters to an operation; the
   layout is what must not. Also: the programs (leaves, steps) that are replayed. *)
EXTENDS Views, Json, CSV, IOUtils

\* deterministic pseudo-random integer in 0 .. m-1 for element k of stream s
Hash(s, k, m) == LET a == (k * 7919 + s * 104729 + 12345) % 32749
                     b == (a * 31 + s * 17 + k) % 32719
                     c == (b * 61 + 5) % 32693
                 IN c % m

DressKinds == {"plain", "off", "step", "trans", "transoff", "perm", "bc"}
\* kinds that apply to a shape
\* (slicing down to nothing is refused, so empty operands are not slices)
KindsFor(sh) == IF Prod(sh) = 0 THEN {"plain", "bc"} \cup (IF Len(sh) >= 2 THEN {"trans"} ELSE {}) ELSE
                {"plain", "off"} \cup (IF Len(sh) >= 1 THEN {"step", "bc"} ELSE {})
                \cup (IF Len(sh) >= 2 THEN {"trans", "transoff"} ELSE {})
                \cup (IF Len(sh) >= 3 THEN {"perm"} ELSE {})

VStep(op, p, o) == [op |-> op, p |-> p, o |-> o]
LeafOf(sh, f(_)) == [s |-> sh, d |-> TLCEval([k \in 1..Prod(sh) |-> f(k)])]
\* view steps applied one after the other: sequence of <<op, p>> on leaf
RECURSIVE ViewRun(_, _)
ViewRun(t, ops) == IF ops = <<>> THEN <<>>
    ELSE LET u == TLCEval(ViewApply(ops[1][1], t, ops[1][2])) IN <<VStep(ops[1][1], ops[1][2], u)>> \o ViewRun(u, Tail(ops))
Obtain(leaf, ops) == LET vs == ViewRun(leaf, ops)
    IN [leaf |-> leaf, vs |-> vs, t |-> IF vs = <<>> THEN leaf ELSE vs[Len(vs)].o]

SwapEnds(q) == [q EXCEPT ![1] = q[Len(q)], ![Len(q)] = q[1]]
RotL(q) == Append(Tail(q), q[1])

\* an operand of shape sh whose elements are drawn from stream f, in layout kind
Opnd(kind, sh, f(_)) == LET r == Len(sh) IN
    CASE kind = "plain" -> Obtain(LeafOf(sh, f), <<>>)
      [] kind = "off" /\ r = 0 -> Obtain(LeafOf(<<2>>, f), <<<<"slice", [dim |-> 0, start |-> 1, end |-> None, step |-> 1]>>, <<"squeeze", [dims |-> <<>>]>>>>)
      [] kind = "off" -> Obtain(LeafOf([sh EXCEPT ![1] = sh[1] + 1], f), <<<<"slice", [dim |-> 0, start |-> 1, end |-> None, step |-> 1]>>>>)
      [] kind = "step" -> Obtain(LeafOf([sh EXCEPT ![r] = 2 * sh[r]], f), <<<<"slice", [dim |-> -1, start |-> 1, end |-> None, step |-> 2]>>>>)
      [] kind = "trans" -> Obtain(LeafOf(SwapEnds(sh), f), <<<<"transpose", [a |-> 0, b |-> -1]>>>>)
      [] kind = "transoff" -> Obtain(LeafOf([SwapEnds(sh) EXCEPT ![1] = sh[r] + 1], f),
                <<<<"slice", [dim |-> 0, start |-> 1, end |-> None, step |-> 1]>>, <<"transpose", [a |-> -1, b |-> 0]>>>>)
      [] kind = "perm" -> Obtain(LeafOf(RotL(sh), f), <<<<"permute", [axes |-> [i \in 1..r |-> IF i = 1 THEN r - 1 ELSE i - 2]]>>>>)
      [] kind = "bc" -> LET i == Min({j \in 1..r : \A k \in 1..r : sh[j] >= sh[k]})
                        IN Obtain(LeafOf([sh EXCEPT ![i] = 1], f), <<<<"broadcast", [shape |-> sh]>>>>)
\* the same for a given value (not "bc", which needs equal elements)
Dressed(kind, v, fill) == LET sh == v.s r == Len(sh) n == Prod(sh)
                              leafOff == [s |-> [sh EXCEPT ![1] = sh[1] + 1], d |-> [k \in 1..(n \div sh[1]) |-> fill] \o v.d]
                          IN
    CASE kind = "plain" -> Obtain(v, <<>>)
      [] kind = "off" /\ r = 0 -> Obtain([s |-> <<2>>, d |-> <<fill>> \o v.d], <<<<"slice", [dim |-> 0, start |-> 1, end |-> None, step |-> 1]>>, <<"squeeze", [dims |-> <<>>]>>>>)
      [] kind = "off" -> Obtain(leafOff, <<<<"slice", [dim |-> 0, start |-> 1, end |-> None, step |-> 1]>>>>)
      [] kind = "step" -> Obtain([s |-> [sh EXCEPT ![r] = 2 * sh[r]], d |-> TLCEval([k \in 1..2*n |-> IF k % 2 = 0 THEN v.d[k \div 2] ELSE fill])],
                <<<<"slice", [dim |-> -1, start |-> 1, end |-> None, step |-> 2]>>>>)
      [] kind = "trans" -> Obtain(Transpose(v, 0, -1), <<<<"transpose", [a |-> 0, b |-> -1]>>>>)
      [] kind = "transoff" -> LET w == Transpose(v, 0, -1) IN
                Obtain([s |-> [w.s EXCEPT ![1] = w.s[1] + 1], d |-> [k \in 1..(n \div w.s[1]) |-> fill] \o w.d],
                <<<<"slice", [dim |-> 0, start |-> 1, end |-> None, step |-> 1]>>, <<"transpose", [a |-> -1, b |-> 0]>>>>)
      [] kind = "perm" -> Obtain(Permute(v, [i \in 1..r |-> IF i = r THEN 0 ELSE i]), <<<<"permute", [axes |-> [i \in 1..r |-> IF i = 1 THEN r - 1 ELSE i - 2]]>>>>)
DressedKinds(sh) == KindsFor(sh) \ {"bc"}

\* tag: element type of a tensor when it is not the type the program runs in
Tag(x, tag) == IF tag = "n" THEN x ELSE [s |-> x.s, d |-> x.d, t |-> tag]

\* A program: operands (records of Opnd, with their tags), then one operation.
\* env positions: leaves first, then every step's outputs.
RECURSIVE OpSteps(_, _, _, _)
OpSteps(os, tags, k, base) ==
    IF k > Len(os) THEN [steps |-> <<>>, at |-> <<>>]
    ELSE LET o == os[k] m == Len(o.vs)
             st == [j \in 1..m |-> [op |-> o.vs[j].op, p |-> o.vs[j].p, in |-> <<IF j = 1 THEN k - 1 ELSE base + j - 2>>,
                                    outs |-> <<Tag(o.vs[j].o, tags[k])>>]]
             rest == OpSteps(os, tags, k + 1, base + m)
         IN [steps |-> st \o rest.steps, at |-> <<IF m = 0 THEN k - 1 ELSE base + m - 1>> \o rest.at]
ProgT(os, tags, op, p, outs, more) ==
    LET w == OpSteps(os, tags, 1, Len(os)) IN
    more @@ [leaves |-> [k \in 1..Len(os) |-> Tag(os[k].leaf, tags[k])],
             steps |-> Append(w.steps, [op |-> op, p |-> p, in |-> w.at, outs |-> outs])]
Ns(os) == [k \in 1..Len(os) |-> "n"]
ProgErr(os, tags, op, p, more) ==
    LET w == OpSteps(os, tags, 1, Len(os)) IN
    more @@ [leaves |-> [k \in 1..Len(os) |-> Tag(os[k].leaf, tags[k])],
             steps |-> Append(w.steps, [op |-> op, p |-> p, in |-> w.at, err |-> TRUE])]
Export(case) == CSVWrite("%1$s", <<ToJson(case)>>, IOEnv.OUT)
NoP == [z |-> 0]
===========================================================================
