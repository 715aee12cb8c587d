------------------------------- MODULE MCBuild -------------------------------
(* C06. The build command: which plugins are asked for what, in which order, over every registry. A build
   is one request to one backend, made only when the model could be read. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth
VARIABLES reg, hist, done
vars == <<reg, hist, done>>
R(S) == RandomElement(S)
Names == {"x", "aot-x", "aot-aot-x", "y", "hodu-backend-y", "onnx"}
Asked == {"", "", "", "", "x", "aot-x", "y", "onnx", "X", "z"}
Words == {"cpu", "CPU", "Metal", "cuda::0", "CUDA::0", "none"}
Devs == {"cpu", "CPU", "metal", "Metal", "cuda::0", "Cuda::0"}
Fold(q) == CASE q \in {"cpu", "CPU", "Cpu"} -> "cpu" [] q \in {"metal", "Metal"} -> "metal" [] q \in {"cuda::0", "CUDA::0", "Cuda::0"} -> "cuda::0"
             [] q \in {"onnx", "ONNX", "Onnx", ".onnx"} -> "onnx" [] q \in {"npz", "NPZ", ".npz"} -> "npz" [] OTHER -> q
\* an entry: kind, enabled, what it says of building ("" for nothing), devices, extensions; how it answers
Entry(n) == LET k == R({"backend", "backend", "model_format", "tensor_format"}) IN
            [name |-> n, kind |-> k, on |-> R(1..4) > 1, builder |-> IF k # "backend" THEN "" ELSE R({"yes", "yes", "yes", "no", ""}), devices |-> IF k # "backend" THEN {} ELSE R(SUBSET Devs),
             exts |-> IF k = "backend" THEN {} ELSE R({{"onnx"}, {"ONNX", "npz"}, {".onnx"}, {"npz"}})]
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
First(S) == IF S = {} THEN 0 ELSE Least(S)
I == 1..Len(reg)
Builder(i) == reg[i].kind = "backend" /\ reg[i].builder = "yes"
Named(n) == First({i \in I : reg[i].name = n /\ Builder(i)})
Holder(w) == First({i \in I : Builder(i) /\ reg[i].on /\ \E d \in reg[i].devices : Fold(d) = Fold(w)})
Chosen(b, w) == IF b = "" THEN Holder(w) ELSE IF Named(b) # 0 THEN Named(b) ELSE Named("aot-" \o b)
\* the last part of a file name
Files == {"m.hdss", "m.HDSS", "m.onnx", "m.Onnx", "m.b.onnx", "m.npz", "m", "m.zzz", "gone.hdss", "gone.onnx"}
Ext(f) == CASE f \in {"m.hdss", "m.HDSS", "gone.hdss"} -> "hdss" [] f \in {"m.onnx", "m.Onnx", "m.b.onnx", "gone.onnx"} -> "onnx" [] f = "m.npz" -> "npz" [] f = "m.zzz" -> "zzz" [] OTHER -> ""
Absent(f) == f \in {"gone.hdss", "gone.onnx"}
Reader(e) == First({i \in I : reg[i].kind = "model_format" /\ reg[i].on /\ \E x \in reg[i].exts : Fold(x) = e})
Outs == <<"o", "o.so", "o.dylib", "o.dll", "o.a", "o.lib", "o.o", "o.obj", "o.exe", "o.bin", "o.metallib", "o.ptx", "o.cubin", "o.ll", "o.bc", "o.wgsl", "o.spv", "o.xyz", "o.a.so", "o.so.a", "o.v1.2.o", ".o", "o.so.1">>
Means == <<"executable", "sharedlib", "sharedlib", "sharedlib", "staticlib", "staticlib", "object", "object", "executable", "executable", "metallib", "ptx", "cubin", "llvmir", "llvmbitcode", "wgsl", "spirv", "sharedlib", "sharedlib", "staticlib", "object", "executable", "sharedlib">>
Formats == {"", "", "", "staticlib", "StaticLib", "object", "ptx"}
Meant(f, o) == IF f = "" THEN Means[o] ELSE IF f = "StaticLib" THEN "staticlib" ELSE f
Answers == {"ok", "ok", "ok", "err", "crash"}
ReaderAnswers == {"ok", "err", "crash", "bad", "missing"}
Call(i, what) == [who |-> reg[i].name, what |-> what]
\* content: what a .hdss model holds ("good", "bad")
Build(file, content, b, w, t, f, o, rd, bd) ==
    LET k == Chosen(b, w)
        e == Ext(file)
        r == IF e \in {"hdss", ""} THEN 0 ELSE Reader(e)
        go == k # 0 /\ ~Absent(file) /\ (e = "hdss" \/ r # 0)
        reads == IF go /\ e # "hdss" THEN <<Call(r, "load")>> ELSE <<>>
        read == go /\ (IF e = "hdss" THEN content = "good" ELSE rd = "ok")
        \* a backend that is disabled is never started
        runs == read /\ reg[k].on
        calls == IF runs THEN Append(reads, Call(k, "build")) ELSE reads
        ok == runs /\ bd = "ok" IN
    hist' = Append(hist, [op |-> "build", file |-> file, content |-> content, b |-> b, w |-> w, d |-> Fold(w), t |-> t, f |-> f, o |-> Outs[o], form |-> Meant(f, o), rd |-> rd, bd |-> bd, calls |-> calls, ok |-> ok])
Targets(b, w, bd) ==
    LET k == Chosen(b, w) runs == k # 0 /\ reg[k].on IN
    hist' = Append(hist, [op |-> "targets", file |-> "", content |-> "good", b |-> b, w |-> w, d |-> Fold(w), t |-> "", f |-> "", o |-> "", form |-> "", rd |-> "ok", bd |-> bd,
                          calls |-> IF runs THEN <<Call(k, "targets")>> ELSE <<>>, ok |-> runs /\ bd = "ok"])
Init == hist = <<>> /\ done = FALSE /\ reg = <<>>
\* the plugins installed, in an order
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET n == R(S) IN <<Entry(n)>> \o Perm(S \ {n})
Fill == /\ \E p \in {Perm(R({s \in SUBSET Names : Cardinality(s) \in 2..5}))} : reg' = p
        /\ UNCHANGED <<hist, done>>
Ready == reg # <<>>
Do == IF R(1..8) = 1 THEN \E b \in {R(Asked)}, w \in {R(Words)}, bd \in {R(Answers)} : Targets(b, w, bd)
      ELSE \E file \in {IF R(1..2) = 1 THEN R({"m.hdss", "m.onnx"}) ELSE R(Files)}, c \in {IF R(1..6) = 1 THEN "bad" ELSE "good"}, b \in {R(Asked)}, w \in {IF R(1..2) = 1 THEN "cpu" ELSE R(Words)},
              t \in {R({"", "", "riscv64-linux", "thumbv7em-none-eabihf"})}, f \in {R(Formats)}, o \in {R(1..Len(Outs))}, rd \in {IF R(1..4) > 1 THEN "ok" ELSE R(ReaderAnswers)}, bd \in {R(Answers)} : Build(file, c, b, w, t, f, o, rd, bd)
Emit == CSVWrite("%1$s", <<ToJson([reg |-> reg, hist |-> hist])>>, IOEnv.OUT)
Next == \/ ~Ready /\ Fill
        \/ Ready /\ Len(hist) < Depth /\ Do /\ UNCHANGED <<reg, done>>
        \/ Len(hist) = Depth /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED <<reg, hist>>
Spec == Init /\ [][Next]_vars
\* at most one plugin of each kind is asked, a backend last; no disabled plugin; success only with a build
OneBuild == \A i \in DOMAIN hist : Len(hist[i].calls) <= 2 /\ (\A j \in DOMAIN hist[i].calls : hist[i].calls[j].what \in {"build", "targets"} => j = Len(hist[i].calls))
EnabledOnly == \A i \in DOMAIN hist : \A j \in DOMAIN hist[i].calls : \E k \in I : reg[k].name = hist[i].calls[j].who /\ reg[k].on
Honest == \A i \in DOMAIN hist : hist[i].ok => hist[i].calls # <<>> /\ hist[i].bd = "ok" /\ (hist[i].op = "build" => hist[i].calls[Len(hist[i].calls)].what = "build")
=============================================================================
