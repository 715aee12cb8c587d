-------------------------------- MODULE Grad --------------------------------
(* G01. The elements of the operands are variables; the definitions of the operations turn
   them into terms; the loss is a weighted sum of the elements of the results. The gradient
   an operand has to receive is the derivative of that term at the given point. *)
EXTENDS Dress
\* the operand obtained the same way from other leaf elements
Rebuild(o, d) == Obtain([s |-> o.leaf.s, d |-> d], [j \in 1..Len(o.vs) |-> <<o.vs[j].op, o.vs[j].p>>])
Wt(s, i, k) == <<-3, -2, -1, 1, 2, 3, 5>>[1 + Hash(s + 900 + i, k, 7)]
Weights(r, s) == TLCEval([i \in 1..Len(r) |-> [k \in 1..Len(r[i].d) |-> Wt(s, i, k)]])
\* which operands ask for a gradient: all, or all but one
Asks(isn, s) == LET n == Cardinality({i \in 1..Len(isn) : isn[i]}) IN
    [i \in 1..Len(isn) |-> isn[i] /\ (n <= 1 \/ Hash(s, 77 + n, 4) + 1 # i)]
\* positions (from 0) of the outputs of the last step
OutAt(case, j) == Len(case.leaves) + Len(case.steps) - 1 + j - 1
LossAt(case, which, ws) == [n \in 1..Len(which) |-> [at |-> OutAt(case, which[n]), w |-> ws[n]]]
\* leaf elements as variables, numbered through all operands
RECURSIVE BaseOf(_, _)
BaseOf(os, i) == IF i = 1 THEN 0 ELSE BaseOf(os, i - 1) + Len(os[i - 1].leaf.d)
Symb(os) == TLCEval([i \in 1..Len(os) |-> LET b == BaseOf(os, i) IN Rebuild(os[i], [k \in 1..Len(os[i].leaf.d) |-> <<"v", b + k - 1>>])])
Vals(os) == FoldLeft(LAMBDA a, o : a \o o.leaf.d, <<>>, os)
GapPerm(s, k) == (k * 37 + s * 11) % 127
Gap(s, i, k) == 6 * (GapPerm(s + i, k) - 63) + 3 * (i % 2)
Small(s, i, k) == Hash(s + 31 * i, k, 9) - 4
=============================================================================
