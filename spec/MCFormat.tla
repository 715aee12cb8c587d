------------------------------ MODULE MCFormat ------------------------------
(* F01, F02, F03. A file is written from a value ("view", "many", "snap" start from one) and then
   damaged by up to Edits edits; a text file is composed of fields. Every file is read by the
   specification, and by the library. *)
EXTENDS Format, Views, Json, CSV, IOUtils
CONSTANTS Mode, Dts, Edits, Depth, Sim
VARIABLES st, ne, done
vars == <<st, ne, done>>
R(S) == RandomElement(S)
\* ---- element patterns, little-endian
Special(dt) ==
    CASE dt = 0 -> <<<<0>>, <<1>>>>
      [] dt \in {1, 2, 7, 11} -> [i \in 1..256 |-> <<(i * 37) % 256>>]
      [] dt = 3 -> <<<<0,0>>, <<0,128>>, <<128,63>>, <<1,0>>, <<127,127>>, <<128,127>>, <<128,255>>, <<192,127>>, <<1,255>>, <<205,61>>, <<128,0>>>>
      [] dt = 4 -> <<<<0,0>>, <<0,128>>, <<0,60>>, <<1,0>>, <<255,3>>, <<0,4>>, <<255,123>>, <<0,124>>, <<0,252>>, <<0,126>>, <<1,253>>, <<102,46>>>>
      [] dt = 5 -> <<<<0,0,0,0>>, <<0,0,0,128>>, <<0,0,128,63>>, <<1,0,0,0>>, <<255,255,127,0>>, <<0,0,128,0>>, <<255,255,127,127>>, <<0,0,128,127>>, <<0,0,128,255>>, <<0,0,192,127>>, <<1,0,128,255>>, <<205,204,204,61>>, <<1,0,128,63>>>>
      [] dt = 6 -> <<<<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,128>>, <<1,0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,239,127>>, <<0,0,0,0,0,0,240,127>>, <<0,0,0,0,0,0,240,255>>, <<0,0,0,0,0,0,248,127>>, <<154,153,153,153,153,153,185,63>>, <<1,0,0,0,0,0,240,63>>, <<0,0,0,0,0,0,16,0>>>>
      [] dt \in {8, 12} -> <<<<0,0>>, <<255,127>>, <<0,128>>, <<255,255>>, <<1,0>>, <<0,1>>>>
      [] dt \in {9, 13} -> <<<<0,0,0,0>>, <<255,255,255,127>>, <<0,0,0,128>>, <<255,255,255,255>>, <<1,0,0,0>>, <<0,0,1,0>>>>
      [] OTHER -> <<<<0,0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,255,127>>, <<0,0,0,0,0,0,0,128>>, <<255,255,255,255,255,255,255,255>>, <<1,0,0,0,0,0,0,0>>, <<0,0,0,0,1,0,0,0>>, <<1,0,0,0,0,0,32,0>>>>
Mix(i, k, s) == (((i * 7919 + k * 6247 + s * 331) % 32749) * (((i + 13 * k + s) % 251) + 3)) % 256
Elem(dt, i, s) == LET sp == Special(dt) IN IF dt = 0 THEN sp[((i + s) % 2) + 1]
    ELSE IF (i + s) % 3 = 0 /\ Wd(dt) > 1 THEN [k \in 1..Wd(dt) |-> Mix(i, k, s)] ELSE sp[((i + s) % Len(sp)) + 1]
Bytes(dt, d, s) == Flat([i \in 1..Len(d) |-> Elem(dt, d[i], s)])
Tn(dt, sh, s) == [sh |-> sh, dt |-> dt, b |-> Bytes(dt, [i \in 1..Prod(sh) |-> i - 1], s)]
Shapes == {<<>>, <<1>>, <<3>>, <<2,3>>, <<3,1>>, <<2,1,2>>, <<1,2,2,2>>}
ShapesS == {<<>>, <<3>>, <<5>>, <<2,3>>, <<4,3>>, <<2,1,2>>, <<2,3,2>>, <<1,2,2,2>>, <<13,11>>, <<1,1,1,1,1,1,2>>, <<2,1,1,1,1,1,1,1,2>>}
Name1 == <<97>>
NameSet == {<<>>, <<97>>, <<120, 47, 46>>, <<98, 32, 34, 92>>, <<195, 169>>}
SnapOf(v) ==
    LET in1 == [name |-> <<120>>, id |-> 0, sh |-> <<2, 3>>, dt |-> 5] in2 == [name |-> <<>>, id |-> 300, sh |-> <<>>, dt |-> 0]
        c1 == [id |-> 1, name |-> <<>>, t |-> Tn(4, <<2>>, 1)] c2 == [id |-> 2, name |-> <<<<119>>>>, t |-> Tn(13, <<1, 2>>, 2)] c0 == [id |-> 3, name |-> <<>>, t |-> Tn(0, <<>>, 1)]
        g1 == [name |-> <<111>>, id |-> 1] g2 == [name |-> <<111, 50>>, id |-> 2] IN
    CASE v = 1 -> [name |-> <<>>, ins |-> <<>>, cs |-> <<>>, tg |-> <<>>]
      [] v = 2 -> [name |-> <<<<109>>>>, ins |-> <<in1>>, cs |-> <<c1>>, tg |-> <<g1>>]
      [] v = 3 -> [name |-> <<>>, ins |-> <<in2>>, cs |-> <<c1, c2>>, tg |-> <<>>]
      [] v = 4 -> [name |-> <<<<>>>>, ins |-> <<in1, in2>>, cs |-> <<c0>>, tg |-> <<g1, g2>>]
\* ---- text documents
DimToks == {"0", "1", "2", "3", "-1", "1.5", "\"x\"", "null", "4294967296", "9223372036854775808", "18446744073709551615", "18446744073709551616", "true"}
ShapeDocs == {<<>>} \cup {<<a>> : a \in DimToks} \cup {<<a, b>> : a, b \in {"0", "1", "2", "-1", "4294967296", "9223372036854775808", "18446744073709551615"}}
                \cup {<<"4294967296", "4294967296", "0">>, <<"0", "9223372036854775808", "2">>, <<"65536", "65536", "65536", "65536">>, <<"1", "2", "1">>}
Forms == {"whole", "noshape", "nodtype", "nodata", "array", "scalar", "objdata", "cut", "tail", "shapestr"}
Toks == {Ints[i] : i \in 1..Len(Ints)} \cup Others
Valid(dt) == IF dt = 0 THEN "true" ELSE "1"
DocsV == {[form |-> "whole", shape |-> <<>>, dtype |-> Names[dt + 1], data |-> <<tok>>] : dt \in 0..14, tok \in Toks}
         \cup {[form |-> "whole", shape |-> <<"2">>, dtype |-> Names[dt + 1], data |-> <<Valid(dt), tok>>] : dt \in 0..14, tok \in Toks}
DocsS == {[form |-> "whole", shape |-> sh, dtype |-> dt, data |-> [i \in 1..k |-> "1"]] : sh \in ShapeDocs, dt \in {"f32", "i64", "u8"}, k \in 0..3}
DocsF == {[form |-> f, shape |-> sh, dtype |-> dt, data |-> [i \in 1..k |-> "1"]] : f \in Forms, sh \in {<<>>, <<"2">>}, dt \in {"f32", "f33", "", "i8"}, k \in 1..2}
\* ---- transitions
Start == CASE Mode = "view" -> {[k |-> "view", dt |-> dt, base |-> sh, s |-> s, t |-> [s |-> sh, d |-> [i \in 1..Prod(sh) |-> i - 1]], ops |-> <<>>] : dt \in Dts, sh \in (IF Sim THEN ShapesS ELSE Shapes), s \in (IF Sim THEN 0..20 ELSE {0, 1})}
           [] Mode = "tensor" -> {[k |-> "tensor", b |-> EncTensor(Tn(dt, sh, 1))] : dt \in Dts, sh \in {<<>>, <<2>>, <<1, 2>>, <<0>>, <<2, 0>>}}
           [] Mode = "many" -> {[k |-> "many", b |-> EncMany(ts)] : ts \in {<<>>, <<[name |-> Name1, t |-> Tn(5, <<1>>, 0)]>>, <<[name |-> Name1, t |-> Tn(7, <<2>>, 0)], [name |-> <<98, 99>>, t |-> Tn(0, <<>>, 0)]>>}}
           [] Mode = "names" -> {[k |-> "many", b |-> EncMany(<<[name |-> a, t |-> Tn(dt, sh, 0)], [name |-> <<122>>, t |-> Tn(7, <<>>, 0)]>>)] : a \in NameSet, dt \in Dts, sh \in Shapes}
           [] Mode = "snap" -> {[k |-> "snap", b |-> EncSnap(SnapOf(v))] : v \in 1..4}
           [] Mode = "text" -> {[k |-> "text", doc |-> d] : d \in DocsV \cup DocsS \cup DocsF}
Values == {0, 1, 2, 15, 127, 128, 255}
Cut(b, i) == SubSeq(b, 1, i - 1)
Edit(b) == {Cut(b, i) : i \in 1..Len(b)} \cup {Append(b, 0)}
           \cup {[b EXCEPT ![i] = v] : i \in 1..Len(b), v \in Values}
           \cup {[b EXCEPT ![i] = IF b[i] = 255 THEN 0 ELSE b[i] + 1] : i \in 1..Len(b)} \cup {[b EXCEPT ![i] = IF b[i] = 0 THEN 255 ELSE b[i] - 1] : i \in 1..Len(b)}
           \cup {Cut(b, i) \o SubSeq(b, i + 1, Len(b)) : i \in 1..Len(b)}
           \cup {Cut(b, i) \o <<v>> \o SubSeq(b, i, Len(b)) : i \in 1..Len(b), v \in {0, 1, 128, 255}}
           \* a length or dimension replaced by an enormous one
           \cup {Cut(b, i) \o w \o SubSeq(b, i + 1, Len(b)) : i \in 1..Len(b),
                 w \in {<<255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>, <<255, 255, 255, 255, 15>>, <<128, 128, 128, 128, 128, 128, 128, 128, 128, 1>>, <<128, 128, 128, 128, 16>>, <<128, 128, 128, 128, 128, 128, 128, 128, 128, 2>>, <<128, 128, 128, 128, 128, 128, 128, 128, 32>>}}
\* two dimensions whose product wraps to a small number
Dec(x) == CASE x.k = "tensor" -> DecTensor(x.b) [] x.k = "many" -> DecMany(x.b) [] x.k = "snap" -> DecSnap(x.b)
Out(x) == CASE x.k = "view" -> LET b == Bytes(x.dt, x.t.d, x.s) IN
                 [k |-> "view", dt |-> x.dt, base |-> x.base, from |-> Bytes(x.dt, [i \in 1..Prod(x.base) |-> i - 1], x.s), ops |-> x.ops, sh |-> x.t.s, b |-> b, file |-> EncTensor([sh |-> x.t.s, dt |-> x.dt, b |-> b])]
            [] x.k = "text" -> [k |-> "text", doc |-> x.doc, how |-> DecDoc(x.doc)]
            [] OTHER -> LET r == Dec(x) IN [k |-> x.k, b |-> x.b, how |-> r.how, v |-> r.v]
Emit == CSVWrite("%1$s", <<ToJson(Out(st))>>, IOEnv.OUT)
Step == CASE st.k = "view" -> \E op \in (IF Sim THEN {R(ViewOps)} ELSE ViewOps \ {"reshape"}) :
                LET P == IF Sim THEN ViewRand(op, st.t) ELSE ViewParams(op, st.t) IN
                \E p \in (IF P = {} THEN {} ELSE IF Sim THEN {R(P)} ELSE P) : st' = [st EXCEPT !.t = ViewApply(op, st.t, p), !.ops = Append(@, [op |-> op, p |-> p])]
          [] st.k = "text" -> FALSE
          [] OTHER -> \E b \in (IF Sim THEN {R(Edit(st.b))} ELSE Edit(st.b)) : st' = [st EXCEPT !.b = b]
Init == ne = 0 /\ done = FALSE /\ IF Sim THEN \E x \in {R(Start)} : st = x ELSE st \in Start
Next == \/ ne < Edits /\ ~done /\ Step /\ ne' = ne + 1 /\ UNCHANGED done
        \/ ne <= Edits /\ ~done /\ (Sim => ne = Edits) /\ Emit /\ done' = TRUE /\ UNCHANGED <<st, ne>>
Spec == Init /\ [][Next]_vars
\* what was written is read back; what is read is consistent; every proper beginning is refused
ReadsBack == ne = 0 /\ st.k \in {"tensor", "many", "snap"} => Dec(st).how \in {"ok", "any"}
Consistent == /\ st.k = "tensor" /\ Dec(st).how = "ok" => EncTensor(Dec(st).v) = st.b /\ Len(Dec(st).v.b) = Mul(ProdC(Dec(st).v.sh), Wd(Dec(st).v.dt))
              /\ st.k = "many" /\ Dec(st).how = "ok" => EncMany(Dec(st).v) = st.b
              /\ st.k = "snap" /\ Dec(st).how = "ok" => EncSnap(Dec(st).v) = st.b
              /\ st.k = "view" => DecTensor(EncTensor([sh |-> st.t.s, dt |-> st.dt, b |-> Bytes(st.dt, st.t.d, st.s)])).v = [sh |-> st.t.s, dt |-> st.dt, b |-> Bytes(st.dt, st.t.d, st.s)]
Cuts == st.k \in {"tensor", "many", "snap"} /\ Dec(st).how = "ok" => \A i \in 0..(Len(st.b) - 1) : Dec([st EXCEPT !.b = SubSeq(st.b, 1, i)]).how = "err"
=============================================================================
