------------------------------- MODULE Format -------------------------------
(* The tensor and snapshot files. Binary files are sequences of bytes: `Enc...` is what a
   writer produces and `Dec...` what a reader of any sequence has to answer: "err" (refused),
   "ok" with the value, or "any" (the property leaves open whether it is refused, but nothing
   inconsistent may be returned). Textual files are sequences of tokens. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Cap == 16384                      \* numbers are exact below Cap; Cap stands for everything above
Wd(dt) == CASE dt \in {0, 1, 2, 7, 11} -> 1 [] dt \in {3, 4, 8, 12} -> 2 [] dt \in {5, 9, 13} -> 4 [] OTHER -> 8
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a >= Cap \/ b >= Cap \/ a * b >= Cap THEN Cap ELSE a * b
RECURSIVE ProdC(_)
ProdC(s) == IF s = <<>> THEN 1 ELSE Mul(s[1], ProdC(Tail(s)))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

\* ---- writing
RECURSIVE Var(_)
Var(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Var(n \div 128)
EncDims(sh) == Var(Len(sh)) \o Flat([i \in 1..Len(sh) |-> Var(sh[i])])
EncBytes(b) == Var(Len(b)) \o b
EncTensor(t) == EncDims(t.sh) \o <<t.dt>> \o EncBytes(t.b)
EncMany(ts) == Var(Len(ts)) \o Flat([i \in 1..Len(ts) |-> EncBytes(ts[i].name) \o EncTensor(ts[i].t)])
EncOpt(o) == IF o = <<>> THEN <<0>> ELSE <<1>> \o EncBytes(o[1])
EncSnap(s) == EncOpt(s.name)
   \o Var(Len(s.ins)) \o Flat([i \in 1..Len(s.ins) |-> EncBytes(s.ins[i].name) \o Var(s.ins[i].id) \o EncDims(s.ins[i].sh) \o <<s.ins[i].dt>>])
   \o Var(Len(s.cs)) \o Flat([i \in 1..Len(s.cs) |-> Var(s.cs[i].id) \o EncOpt(s.cs[i].name) \o EncTensor(s.cs[i].t)])
   \o Var(Len(s.tg)) \o Flat([i \in 1..Len(s.tg) |-> EncBytes(s.tg[i].name) \o Var(s.tg[i].id)])
   \o <<0>>                                                    \* no nodes

\* ---- reading: [ok, v, p, any]; p is the next position
Bad == [ok |-> FALSE, v |-> 0, p |-> 0, any |-> FALSE]
Got(v, p, any) == [ok |-> TRUE, v |-> v, p |-> p, any |-> any]
RECURSIVE VarFrom(_, _, _, _)
VarFrom(b, p, i, acc) ==
    IF p > Len(b) \/ i > 10 THEN Bad
    ELSE LET x == b[p] % 128 more == b[p] >= 128
             add == IF x = 0 THEN 0 ELSE CASE i = 1 -> x [] i = 2 -> x * 128 [] OTHER -> Cap
             v == IF acc + add >= Cap THEN Cap ELSE acc + add IN
         IF i = 10 /\ b[p] > 1 THEN Bad ELSE IF more THEN VarFrom(b, p + 1, i + 1, v) ELSE Got(v, p + 1, i > 1 /\ x = 0)   \* over-long forms: open
VarAt(b, p) == VarFrom(b, p, 1, 0)
RECURSIVE Rep(_, _, _, _, _)
Rep(b, p, n, acc, any) == IF n = 0 THEN Got(acc, p, any)
    ELSE LET r == VarAt(b, p) IN IF ~r.ok THEN Bad ELSE Rep(b, r.p, n - 1, Append(acc, r.v), any \/ r.any)
DimsAt(b, p) == LET n == VarAt(b, p) IN IF ~n.ok \/ n.v > Len(b) THEN Bad ELSE Rep(b, n.p, n.v, <<>>, n.any)
BytesAt(b, p) == LET n == VarAt(b, p) IN IF ~n.ok \/ n.v > Len(b) - n.p + 1 THEN Bad ELSE Got(SubSeq(b, n.p, n.p + n.v - 1), n.p + n.v, n.any)
\* text: anything but plain ASCII is left open
TextAt(b, p) == LET r == BytesAt(b, p) IN IF ~r.ok THEN Bad ELSE [r EXCEPT !.any = r.any \/ \E i \in 1..Len(r.v) : r.v[i] >= 128]
OptAt(b, p) == IF p > Len(b) THEN Bad ELSE IF b[p] = 0 THEN Got(<<>>, p + 1, FALSE) ELSE IF b[p] # 1 THEN Bad
    ELSE LET r == TextAt(b, p + 1) IN IF ~r.ok THEN Bad ELSE Got(<<r.v>>, r.p, r.any)
\* the declared size is the size of the data
Fits(sh, dt, b) == Mul(ProdC(sh), Wd(dt)) = Len(b)
Vast(sh) == \E i \in 1..Len(sh) : sh[i] >= Cap          \* dimensions nothing could address: open
TensorAt(b, p) ==
    LET d == DimsAt(b, p) IN IF ~d.ok \/ d.p > Len(b) THEN Bad
    ELSE LET dt == b[d.p] IN IF dt > 14 THEN Bad
    ELSE LET x == BytesAt(b, d.p + 1) IN IF ~x.ok THEN Bad
    ELSE IF ~Fits(d.v, dt, x.v) THEN Bad
    ELSE Got([sh |-> d.v, dt |-> dt, b |-> x.v], x.p, d.any \/ x.any \/ Vast(d.v))
Whole(r, b) == IF ~r.ok \/ r.p # Len(b) + 1 THEN [how |-> "err", v |-> 0] ELSE IF r.any THEN [how |-> "any", v |-> 0] ELSE [how |-> "ok", v |-> r.v]
DecTensor(b) == Whole(TensorAt(b, 1), b)
RECURSIVE ManyFrom(_, _, _, _, _)
ManyFrom(b, p, n, acc, any) == IF n = 0 THEN Got(acc, p, any \/ \E i, j \in 1..Len(acc) : i # j /\ acc[i].name = acc[j].name)
    ELSE LET k == TextAt(b, p) IN IF ~k.ok THEN Bad
    ELSE LET t == TensorAt(b, k.p) IN IF ~t.ok THEN Bad
    ELSE ManyFrom(b, t.p, n - 1, Append(acc, [name |-> k.v, t |-> t.v]), any \/ k.any \/ t.any)
DecMany(b) == LET n == VarAt(b, 1) IN IF ~n.ok \/ n.v > Len(b) THEN [how |-> "err", v |-> 0] ELSE Whole(ManyFrom(b, n.p, n.v, <<>>, n.any), b)

\* snapshots without nodes; an input declares a shape without data: a vast one is left open
RECURSIVE InsFrom(_, _, _, _, _)
InsFrom(b, p, n, acc, any) == IF n = 0 THEN Got(acc, p, any)
    ELSE LET k == TextAt(b, p) IN IF ~k.ok THEN Bad
    ELSE LET i == VarAt(b, k.p) IN IF ~i.ok THEN Bad
    ELSE LET d == DimsAt(b, i.p) IN IF ~d.ok \/ d.p > Len(b) THEN Bad ELSE IF b[d.p] > 14 THEN Bad
    ELSE InsFrom(b, d.p + 1, n - 1, Append(acc, [name |-> k.v, id |-> i.v, sh |-> d.v, dt |-> b[d.p]]), any \/ k.any \/ i.any \/ d.any \/ i.v >= Cap \/ Vast(d.v))
RECURSIVE CsFrom(_, _, _, _, _)
CsFrom(b, p, n, acc, any) == IF n = 0 THEN Got(acc, p, any)
    ELSE LET i == VarAt(b, p) IN IF ~i.ok THEN Bad
    ELSE LET k == OptAt(b, i.p) IN IF ~k.ok THEN Bad
    ELSE LET t == TensorAt(b, k.p) IN IF ~t.ok THEN Bad
    ELSE CsFrom(b, t.p, n - 1, Append(acc, [id |-> i.v, name |-> k.v, t |-> t.v]), any \/ i.any \/ k.any \/ t.any \/ i.v >= Cap)
RECURSIVE TgFrom(_, _, _, _, _)
TgFrom(b, p, n, acc, any) == IF n = 0 THEN Got(acc, p, any)
    ELSE LET k == TextAt(b, p) IN IF ~k.ok THEN Bad
    ELSE LET i == VarAt(b, k.p) IN IF ~i.ok THEN Bad
    ELSE TgFrom(b, i.p, n - 1, Append(acc, [name |-> k.v, id |-> i.v]), any \/ k.any \/ i.any \/ i.v >= Cap)
SnapAt(b) ==
    LET m == OptAt(b, 1) IN IF ~m.ok THEN Bad
    ELSE LET n1 == VarAt(b, m.p) IN IF ~n1.ok \/ n1.v > Len(b) THEN Bad
    ELSE LET i == InsFrom(b, n1.p, n1.v, <<>>, n1.any) IN IF ~i.ok THEN Bad
    ELSE LET n2 == VarAt(b, i.p) IN IF ~n2.ok \/ n2.v > Len(b) THEN Bad
    ELSE LET c == CsFrom(b, n2.p, n2.v, <<>>, n2.any) IN IF ~c.ok THEN Bad
    ELSE LET n3 == VarAt(b, c.p) IN IF ~n3.ok \/ n3.v > Len(b) THEN Bad
    ELSE LET g == TgFrom(b, n3.p, n3.v, <<>>, n3.any) IN IF ~g.ok THEN Bad
    ELSE LET n4 == VarAt(b, g.p) IN IF ~n4.ok THEN Bad
    ELSE Got([name |-> m.v, ins |-> i.v, cs |-> c.v, tg |-> g.v], n4.p, m.any \/ i.any \/ c.any \/ g.any \/ n4.any \/ n4.v > 0)
\* bytes that claim nodes are outside this model: open (but never a panic)
DecSnap(b) == LET r == SnapAt(b) IN IF r.ok /\ r.any THEN [how |-> "any", v |-> 0] ELSE Whole(r, b)

\* ---- text form: {"shape": [...], "dtype": "...", "data": [...]}, values as tokens
\* whole numbers in ascending order; a type holds a contiguous range of them
Ints == <<"-9223372036854775809", "-9223372036854775808", "-2147483649", "-2147483648", "-32769", "-32768", "-129", "-128", "-1", "0", "1", "2", "3",
          "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
          "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616">>
PosI(tok) == IF \E i \in 1..Len(Ints) : Ints[i] = tok THEN CHOOSE i \in 1..Len(Ints) : Ints[i] = tok ELSE 0
Lo(dt) == PosI(CASE dt \in {7, 8, 9, 10} -> "0" [] dt = 11 -> "-128" [] dt = 12 -> "-32768" [] dt = 13 -> "-2147483648" [] OTHER -> "-9223372036854775808")
Hi(dt) == PosI(CASE dt = 7 -> "255" [] dt = 8 -> "65535" [] dt = 9 -> "4294967295" [] dt = 10 -> "18446744073709551615"
                [] dt = 11 -> "127" [] dt = 12 -> "32767" [] dt = 13 -> "2147483647" [] OTHER -> "9223372036854775807")
Isfloat(dt) == dt \in {1, 2, 3, 4, 5, 6}
Others == {"1.5", "-0.5", "true", "false", "null", "\"x\"", "[1]", "{}"}
Holds(dt, tok) == IF dt = 0 THEN tok \in {"true", "false"}
    ELSE IF Isfloat(dt) THEN tok \in {"-1", "0", "1", "2", "3", "127", "1.5", "-0.5"}
    ELSE PosI(tok) # 0 /\ PosI(tok) >= Lo(dt) /\ PosI(tok) <= Hi(dt)
\* whole numbers a floating type rounds: what comes back is not the declared text, left open
Rounds(dt, tok) == Isfloat(dt) /\ PosI(tok) # 0 /\ ~Holds(dt, tok)
\* (beyond 64 bits a whole number is read as a floating one)
DimVal(tok) == CASE tok = "0" -> 0 [] tok = "1" -> 1 [] tok = "2" -> 2 [] tok = "3" -> 3 [] tok = "127" -> 127 [] tok = "128" -> 128 [] OTHER -> Cap
IsDim(tok) == PosI(tok) # 0 /\ PosI(tok) >= PosI("0") /\ PosI(tok) <= PosI("18446744073709551615")
Names == <<"bool", "f8e4m3", "f8e5m2", "bf16", "f16", "f32", "f64", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64">>
DtOf(n) == IF \E i \in 1..15 : Names[i] = n THEN (CHOOSE i \in 1..15 : Names[i] = n) - 1 ELSE -1
\* doc: [shape: seq of tokens, dtype: name, data: seq of tokens, form]
DecDoc(d) ==
    IF d.form # "whole" \/ DtOf(d.dtype) = -1 \/ \E i \in 1..Len(d.shape) : ~IsDim(d.shape[i]) THEN "err"
    ELSE LET dt == DtOf(d.dtype) sh == [i \in 1..Len(d.shape) |-> DimVal(d.shape[i])] IN
    IF ProdC(sh) # Len(d.data) \/ \E i \in 1..Len(d.data) : ~Holds(dt, d.data[i]) /\ ~Rounds(dt, d.data[i]) THEN "err"
    ELSE IF Vast(sh) \/ \E i \in 1..Len(d.data) : Rounds(dt, d.data[i]) THEN "any" ELSE "ok"
=============================================================================
