----------------------------- MODULE MCRegistry -----------------------------
(* P03 (Mode "api") and C03 (Mode "cli"). Histories of operations, with the registry after each. *)
EXTENDS Registry, Json, CSV, IOUtils
CONSTANTS Mode, Depth, Sim
VARIABLES r, files, hist, start, done
vars == <<r, files, hist, start, done>>
R(S) == RandomElement(S)
ApiNames == {"a", "b", "hodu-backend-a", "hodu-format-a", "A", "", "\"x\\y\""}
CliNames == {"a", "b", "hodu-backend-a", "hodu-format-a", "hodu-backend-b", "hodu-format-b", "x", "..", ".", "", "lone"}
E(n, k, dv, m, t, on, dp, v) == [name |-> n, kind |-> k, devices |-> dv, mext |-> m, text |-> t, enabled |-> on, deps |-> dp, v |-> v]
Subsets(S) == {{}} \cup {{x} : x \in S} \cup {{x, y} : x, y \in S}
Random(ns) == E(R(ns), R(Kinds), R(Subsets({"cpu", "CPU", "cuda::0", "metal"})), R(Subsets({"onnx", ".Onnx", "npy"})), R(Subsets({"npy", ".NPY", "onnx"})), R(1..4) # 1,
                IF R(1..2) = 1 THEN {} ELSE R(Subsets(ns)), R(0..999))
Pool == {E("a", "backend", {"cpu"}, {}, {}, TRUE, {"b"}, 1), E("b", "model_format", {}, {".Onnx"}, {}, TRUE, {}, 2), E("hodu-backend-a", "backend", {"CPU", "cuda::0"}, {}, {}, FALSE, {"b", "hodu-format-a"}, 3),
         E("hodu-format-a", "tensor_format", {}, {}, {"npy"}, TRUE, {"hodu-format-a"}, 4), E("a", "tensor_format", {"cpu"}, {"npy"}, {".NPY"}, TRUE, {}, 5)}
Queries == {"cpu", "CPU", "cuda::0", "CUDA::0", "metal", "onnx", ".onnx", "ONNX", "npy", ".npy", "", "."}
Look(x, ns) == [find |-> [k \in Kinds |-> [q \in Queries |-> Find(x, k, q)]], on |-> [k \in Kinds |-> OfKind(x, k, TRUE)], all |-> [k \in Kinds |-> OfKind(x, k, FALSE)],
                missing |-> [n \in ns |-> Missing(x, n)]]
Ns == IF Mode = "api" THEN ApiNames ELSE CliNames
ApiOps == {"upsert", "upsert2", "remove", "enable", "disable", "reload"}
CliOps == {"enable", "disable", "remove", "list", "verify"}
\* an installed plugin has files or lost them; a name without registry entry may have files too
Plain(n) == n \notin {"..", ".", ""}
Init == /\ hist = <<>> /\ done = FALSE
        /\ IF Mode = "api" THEN r = {} /\ files = {}
           ELSE IF Sim THEN \E k \in {R(0..5)} : \E es \in {[i \in 1..k |-> Random(Ns \ {"lone"})]} :
                     /\ r = {es[i] : i \in {i \in 1..k : \A j \in 1..(i - 1) : es[j].name # es[i].name}}
                     /\ files = {n \in Ns : Plain(n) /\ (n = "lone" \/ ~(\E i \in 1..k : es[i].name = n /\ es[i].v % 7 = 0))}
           ELSE \E es \in SUBSET {e \in Pool : e.v # 5} : r = es /\ files = {e.name : e \in es} \cup {"lone"}
        /\ start = [reg |-> r, files |-> files]
Step(op, n, e, x, ok) == /\ r' = x
                         /\ hist' = Append(hist, [op |-> op, n |-> n, e |-> e, ok |-> ok, reg |-> x, look |-> Look(x, IF Mode = "api" THEN Ns ELSE {}), bad |-> Faulty(r, files), files |-> files'])
None == [name |-> "-"]
Api == /\ Mode = "api" /\ UNCHANGED files
       /\ \E op \in (IF Sim THEN {R(ApiOps)} ELSE ApiOps \ {"upsert2"}) :
          IF op \in {"upsert", "upsert2"} THEN \E e \in (IF Sim THEN {Random(Ns)} ELSE Pool) : Step("upsert", e.name, e, Upsert(r, e), TRUE)
          ELSE IF op = "reload" THEN Step(op, "-", None, r, TRUE)
          ELSE \E n \in (IF Sim THEN {R(Ns)} ELSE {"a", "b", "hodu-backend-a"}) :
               Step(op, n, None, CASE op = "remove" -> Remove(r, n) [] OTHER -> SetEnabled(r, n, op = "enable"), Has(r, n))
\* a command may be run when nothing can be written: it fails and changes nothing
Writes(c, op) == c.ok /\ op \in {"enable", "disable", "remove"}
Cli == /\ Mode = "cli"
       /\ \E op \in (IF Sim THEN {R(CliOps)} ELSE CliOps), full \in (IF Sim THEN {R(1..5) = 1} ELSE BOOLEAN) :
          \E n \in (IF op \in {"list", "verify"} THEN {"-"} ELSE IF Sim THEN {R(Ns)} ELSE {"a", "b", "hodu-format-a", "x"}) :
          LET c == Command(r, op, n)
              stuck == full /\ Writes(c, op)
              x == IF stuck THEN r ELSE c.r IN
          /\ files' = files \ (Names(r) \ Names(x))
          /\ Step(IF full THEN op \o "!" ELSE op, n, None, x, c.ok /\ ~stuck)
Emit == CSVWrite("%1$s", <<ToJson([k |-> Mode, hist |-> hist, start |-> start, names |-> Ns])>>, IOEnv.OUT)
Next == \/ Len(hist) < Depth /\ (Api \/ Cli) /\ UNCHANGED <<start, done>>
        \/ Len(hist) = Depth /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED <<r, files, hist, start>>
Spec == Init /\ [][Next]_vars
OneEach == \A x, y \in r : x.name = y.name => x = y
Last(e) == LET us == {i \in DOMAIN hist : hist[i].op = "upsert" /\ hist[i].n = e.name} IN us # {} /\ LET i == CHOOSE i \in us : \A j \in us : j <= i IN [hist[i].e EXCEPT !.enabled = e.enabled] = e
Latest == Mode = "api" => \A e \in r : Last(e)
Exactly == \A k \in Kinds, q \in Queries : \A n \in Names(r) : n \in Find(r, k, q) <=> (Entry(r, n).enabled /\ Entry(r, n).kind = k /\ \E c \in Claims(Entry(r, n), k) : Fold(c) = Fold(q))
NoDangling == Mode = "cli" => \A i \in DOMAIN hist : hist[i].ok \/ i = 1 \/ hist[i].reg = hist[i - 1].reg
=============================================================================
