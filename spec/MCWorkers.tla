------------------------------ MODULE MCWorkers ------------------------------
(* T09. One kernel launch: W cells shared out over T workers in contiguous shares, each worker
   writing its cells one at a time, at any interleaving. The launch returns when all have been
   joined. Whatever the shares (a share may be empty) and the interleaving, the output is the
   operation applied cell by cell. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, T
VARIABLES cut, pos, out, joined
vars == <<cut, pos, out, joined>>
In(i) == 10 + i
F(x) == 2 * x + 1
Cells == 1..W
Workers == 1..T
First(w) == IF w = 1 THEN 1 ELSE cut[w - 1] + 1
Last(w) == IF w = T THEN W ELSE cut[w]
Init == /\ cut \in {c \in [1..(T - 1) -> 0..W] : \A i \in 1..(T - 2) : c[i] <= c[i + 1]}
        /\ pos = [w \in Workers |-> 0]
        /\ out = [i \in Cells |-> "unset"]
        /\ joined = 0
Done(w) == First(w) + pos[w] > Last(w)
Write(w) == /\ ~Done(w)
            /\ out' = [out EXCEPT ![First(w) + pos[w]] = ToString(F(In(First(w) + pos[w])))]
            /\ pos' = [pos EXCEPT ![w] = @ + 1]
            /\ UNCHANGED <<cut, joined>>
Join == /\ joined < T /\ Done(joined + 1)
        /\ joined' = joined + 1
        /\ UNCHANGED <<cut, pos, out>>
Stop == joined = T /\ UNCHANGED vars
Next == (\E w \in Workers : Write(w)) \/ Join \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* shares cover every cell exactly once
Shared == \A i \in Cells : Cardinality({w \in Workers : First(w) <= i /\ i <= Last(w)}) = 1
Result == joined = T => \A i \in Cells : out[i] = ToString(F(In(i)))
\* nothing is written that is not part of the result
Sound == \A i \in Cells : out[i] \in {"unset", ToString(F(In(i)))}
Returns == <>(joined = T)
=============================================================================
