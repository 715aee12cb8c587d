------------------------------ MODULE Registry ------------------------------
(* The installed plugins, the lookups, and the administration commands. A registry is a set of
   entries with distinct names (the order plays no part). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Names(r) == {e.name : e \in r}
Entry(r, n) == CHOOSE e \in r : e.name = n
Has(r, n) == n \in Names(r)
Upsert(r, e) == {x \in r : x.name # e.name} \cup {e}
Remove(r, n) == {x \in r : x.name # n}
SetEnabled(r, n, b) == {IF x.name = n THEN [x EXCEPT !.enabled = b] ELSE x : x \in r}
\* ---- lookups: the enabled plugins of a kind that claim a device or an extension. What a plugin
\* claims and what is asked for are compared without case, extensions without a leading dot.
Kinds == {"backend", "model_format", "tensor_format"}
Fold(q) == CASE q \in {"cpu", "CPU", "Cpu"} -> "cpu" [] q \in {"cuda::0", "CUDA::0"} -> "cuda::0"
             [] q \in {"onnx", ".onnx", "ONNX", ".Onnx"} -> "onnx" [] q \in {"npy", ".npy", ".NPY"} -> "npy" [] OTHER -> q
Claims(e, kind) == CASE kind = "backend" -> e.devices [] kind = "model_format" -> e.mext [] OTHER -> e.text
Claim(e, kind, q) == \E c \in Claims(e, kind) : Fold(c) = Fold(q)
Find(r, kind, q) == {e.name : e \in {x \in r : x.enabled /\ x.kind = kind /\ Claim(x, kind, q)}}
OfKind(r, kind, on) == {e.name : e \in {x \in r : x.kind = kind /\ (on => x.enabled)}}
Missing(r, n) == IF ~Has(r, n) THEN {} ELSE {d \in Entry(r, n).deps : ~Has(r, d) \/ ~Entry(r, d).enabled}
\* ---- commands: a name stands for itself, else for the backend, else for the format plugin of that name
Backend(n) == CASE n = "a" -> "hodu-backend-a" [] n = "b" -> "hodu-backend-b" [] OTHER -> "hodu-backend-?"
Format(n) == CASE n = "a" -> "hodu-format-a" [] n = "b" -> "hodu-format-b" [] OTHER -> "hodu-format-?"
Resolve(r, n) == IF Has(r, n) THEN n ELSE IF Has(r, Backend(n)) THEN Backend(n) ELSE IF Has(r, Format(n)) THEN Format(n) ELSE "?"
Dependents(r, n) == {e.name : e \in {x \in r : x.enabled /\ x.name # n /\ n \in x.deps}}
\* the effect of a command on the registry: [ok, r]
Command(r, cmd, n) ==
    LET m == Resolve(r, n)
        no == [ok |-> FALSE, r |-> r]
    IN CASE cmd \in {"list", "verify"} -> [ok |-> TRUE, r |-> r]
         [] m = "?" -> no
         [] cmd = "enable" -> [ok |-> TRUE, r |-> SetEnabled(r, m, TRUE)]
         [] cmd = "disable" -> IF Dependents(r, m) # {} THEN no ELSE [ok |-> TRUE, r |-> SetEnabled(r, m, FALSE)]
         [] OTHER -> [ok |-> TRUE, r |-> Remove(r, m)]
\* plugins verify must name: files missing, or enabled with missing dependencies
Faulty(r, files) == {e.name : e \in {x \in r : x.name \notin files \/ (x.enabled /\ Missing(r, x.name) # {})}}
=============================================================================
