---- MODULE MCOptim ----
\* N01. Histories of gradients, zero-grads, steps (also ones that must fail) and learning-rate changes.
EXTENDS Optim, CSV, IOUtils, Json
CONSTANTS Kinds, Depth, Sim, MaxP
VARIABLES o, lr, t, g, h, done
vars == <<o, lr, t, g, h, done>>
Z == [b1 |-> O, b2 |-> O, eps |-> Q(1, 100000000), wd |-> O, mom |-> O, centered |-> FALSE]
Lr0 == {Q(1, 10), Q(1, 100)}
HPs(k) ==
    CASE k = "sgd" -> {Z}
      [] k = "adam" -> {[Z EXCEPT !.b1 = b, !.b2 = c, !.eps = e] : b \in {Q(9, 10), Q(1, 2)}, c \in {Q(999, 1000), Q(3, 4)}, e \in {Q(1, 100000000), Q(1, 2)}}
      [] k = "adamw" -> {[Z EXCEPT !.b1 = b, !.b2 = c, !.wd = w, !.eps = e] : b \in {Q(9, 10), Q(1, 2)}, c \in {Q(999, 1000), Q(3, 4)}, w \in {O, Q(1, 10), Q(3, 2)}, e \in {Q(1, 100000000), Q(1, 4)}}
      [] k = "rmsprop" -> {[Z EXCEPT !.b1 = b, !.mom = m, !.wd = w, !.centered = cc, !.eps = e] :
                              b \in {Q(9, 10), Q(1, 2)}, m \in {O, Q(1, 2)}, w \in {O, Q(1, 10)}, cc \in BOOLEAN, e \in {Q(1, 100000000), Q(1, 4)}}
      [] k = "adagrad" -> {[Z EXCEPT !.mom = m, !.wd = w, !.b1 = i, !.eps = e] : m \in {O, Q(1, 10)}, w \in {O, Q(1, 10)}, i \in {O, Q(1, 2)}, e \in {Q(1, 10000000), Q(1, 4)}}
Opts == UNION {{[kind |-> k] @@ hp : hp \in HPs(k)} : k \in Kinds}
Init == /\ o \in Opts /\ lr \in Lr0 /\ t = 0
        /\ g \in {[i \in 1..n |-> "none"] : n \in 1..MaxP}
        /\ h = <<[do |-> "new", o |-> o, lr |-> lr, n |-> Len(g), init |-> Init0(o)]>> /\ done = FALSE
Np == Len(g)
Bits(s) == [i \in 1..Np |-> i \in s]
Do(e) == h' = Append(h, e) /\ UNCHANGED <<o, done>>
\* backward of sum(w * p) (gradient w) or of sum(w * p * p) / 2 (gradient w * p) over the parameters in s
Back(s, quad, k) == /\ Do([do |-> "back", on |-> Bits(s), quad |-> quad, k |-> k, g |-> IF quad THEN Mul(V(6), P) ELSE V(6)])
                    /\ g' = [i \in 1..Np |-> IF i \in s THEN "set" ELSE g[i]] /\ UNCHANGED <<lr, t>>
Zero(s) == Do([do |-> "zero", on |-> Bits(s)]) /\ g' = [i \in 1..Np |-> IF i \in s /\ g[i] # "none" THEN "zero" ELSE g[i]] /\ UNCHANGED <<lr, t>>
Step == \/ /\ \A i \in 1..Np : g[i] # "none"
           /\ Do([do |-> "step", rule |-> Rule(o, lr, t + 1)]) /\ t' = t + 1 /\ UNCHANGED <<lr, g>>
        \/ /\ \E i \in 1..Np : g[i] = "none"       \* refused, and nothing changes
           /\ Do([do |-> "refused"]) /\ UNCHANGED <<lr, g, t>>
\* (momentum with a changing rate is written down in two ways in the literature; left out)
Lr(x) == /\ ~(o.kind = "rmsprop" /\ o.mom # O)
         /\ Do([do |-> "lr", lr |-> x]) /\ lr' = x /\ UNCHANGED <<g, t>>
Sets == SUBSET (1..Np) \ {{}}
\* a step needs something to have happened; steps are what the histories are about
Next == \/ /\ Len(h) <= Depth
           /\ IF Sim THEN LET r == IF Len(h) = 1 THEN 1 ELSE IF Depth > 20 THEN RandomElement({3, 7, 8, 9, 10, 3, 6}) ELSE RandomElement(1..10) IN
                     CASE r <= 3 -> Back(1..Np, RandomElement(BOOLEAN), RandomElement(0..40))
                       [] r = 4 -> Back(RandomElement(Sets), RandomElement(BOOLEAN), RandomElement(0..40))
                       [] r = 5 -> Zero(RandomElement(Sets))
                       [] r = 6 -> IF o.kind = "rmsprop" THEN Step ELSE Lr(RandomElement({Q(1, 4), Q(1, 10), Q(1, 50), Q(1, 1000)}))
                       [] OTHER -> Step
              ELSE \/ \E q \in BOOLEAN : Back(1..Np, q, Len(h)) \/ Back({1}, q, Len(h))
                   \/ Zero({Np}) \/ Step \/ Lr(Q(1, 4))
        \/ /\ Len(h) = Depth + 1 /\ ~done
           /\ \E i \in 1..Len(h) : h[i].do \in {"step", "refused"}
           /\ CSVWrite("%1$s", <<ToJson([ev |-> h])>>, IOEnv.OUT)
           /\ done' = TRUE /\ UNCHANGED <<o, lr, t, g, h>>
Spec == Init /\ [][Next]_vars
\* --- the guarantee on the specification: the state is built by exactly the successful steps
Steps == Cardinality({i \in 1..Len(h) : h[i].do = "step"})
Counted == t = Steps
RateUsed == \A i \in 1..Len(h) : h[i].do = "step" => h[i].rule = Rule(o, LET ls == {j \in 1..(i - 1) : h[j].do \in {"new", "lr"}} IN h[CHOOSE j \in ls : \A m \in ls : m <= j].lr,
                                                          Cardinality({j \in 1..i : h[j].do = "step"}))
====
