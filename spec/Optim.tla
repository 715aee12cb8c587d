---- MODULE Optim ----
\* The published update rules. An element of a parameter has registers; a rule is a sequence of assignments
\* <<register, term>> over them: 0 the parameter, 1 its gradient, 2.. the state built by the previous steps.
EXTENDS Integers, Sequences, FiniteSets, TLC
Q(n, d) == <<"/", n, d>>
O == Q(0, 1)
V(i) == <<"v", i>>
Add(x, y) == <<"+", x, y>>
Sub(x, y) == <<"-", x, y>>
Mul(x, y) == <<"*", x, y>>
Dv(x, y) == <<"/", x, y>>
Sq(x) == Mul(x, x)
Sqrt(x) == <<"sqrt", x>>
Pow(b, t) == <<"prod">> \o [i \in 1..t |-> b]
Ema(b, r, x) == <<r, Add(Mul(b, V(r)), Mul(Sub(1, b), x))>>
P == V(0)
G == V(1)
\* hyper-parameters: a record of terms; lr is the current learning rate, t the number of this step (from 1)
Rule(o, lr, t) ==
    CASE o.kind = "sgd" -> << <<0, Sub(P, Mul(lr, G))>> >>
      [] o.kind \in {"adam", "adamw"} ->
            LET mh == Dv(V(2), Sub(1, Pow(o.b1, t)))
                vh == Dv(V(3), Sub(1, Pow(o.b2, t)))
                d == Dv(mh, Add(Sqrt(vh), o.eps))
            IN << Ema(o.b1, 2, G), Ema(o.b2, 3, Sq(G)),
                  <<0, Sub(IF o.kind = "adamw" THEN Sub(P, Mul(lr, Mul(o.wd, P))) ELSE P, Mul(lr, d))>> >>
      [] o.kind = "rmsprop" ->
            LET ge == V(5)
                avg == IF o.centered THEN Sub(V(2), Sq(V(4))) ELSE V(2)
                d == Dv(ge, Add(Sqrt(avg), o.eps))
            IN << <<5, Add(G, Mul(o.wd, P))>>, Ema(o.b1, 2, Sq(ge)), Ema(o.b1, 4, ge) >>
               \o (IF o.mom = O THEN << <<0, Sub(P, Mul(lr, d))>> >>
                   ELSE << <<3, Add(Mul(o.mom, V(3)), d)>>, <<0, Sub(P, Mul(lr, V(3)))>> >>)
      [] o.kind = "adagrad" ->
            << <<5, Add(G, Mul(o.wd, P))>>, <<2, Add(V(2), Sq(V(5)))>>,
               <<0, Sub(P, Mul(Dv(lr, Add(1, Mul(t - 1, o.mom))), Dv(V(5), Add(Sqrt(V(2)), o.eps))))>> >>
\* state before the first step (registers 2, 3, 4)
Init0(o) == IF o.kind = "adagrad" THEN <<o.b1, O, O>> ELSE <<O, O, O>>
====
