--------------------------------- MODULE MCRun ---------------------------------
(* C01. The run command: models, backends, devices, builds and the cache. The cache is not part of the
   specification: every run has to behave as if it built the artifact itself, except that a build that
   would fail may be spared by an artifact of an earlier run. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Sim
VARIABLES models, at, ver, built, hist, done
vars == <<models, at, ver, built, hist, done>>
R(S) == RandomElement(S)
Wd(dt) == CASE dt \in {0, 1, 2, 7, 11} -> 1 [] dt \in {3, 4, 8, 12} -> 2 [] dt \in {5, 9, 13} -> 4 [] OTHER -> 8
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Byte(dt) == IF dt = 0 THEN R({0, 1}) ELSE R({0, 1, 126, 127, 128, 192, 240, 248, 255, R(0..255), R(0..255), R(0..255)})
Value(dt, sh) == [dt |-> dt, sh |-> sh, b |-> [i \in 1..(Prod(sh) * Wd(dt)) |-> Byte(dt)]]
InNames == {"x", "y", "a b", "w.1", "n/m", "input"}
Shape(k) == [i \in 1..R(0..2) |-> R({0, 1, 2, 3})]
\* a model: what it is (its number) and the inputs it wants
Model(k) == [n \in R({s \in SUBSET InNames : Cardinality(s) <= 3}) |-> [dt |-> R(0..14), sh |-> Shape(n)]]
NM == 3
Paths == {"p.hdss", "q.hdss"}
\* backends in the order of the registry, and the devices they claim
Backends == <<"b1", "hodu-backend-b2", "b3">>
Claims == [i \in 1..3 |-> CASE i = 1 -> {"cpu", "cuda::0"} [] i = 2 -> {"CPU", "metal", "cuda::1", "odd"} [] OTHER -> {"rocm::0", "metal"}]
\* the device a word means ("" for none)
Device(w) == CASE w \in {"cpu", "CPU", "Cpu"} -> "cpu" [] w \in {"cuda", "cuda:0", "CUDA::0", "cuda::0"} -> "cuda::0" [] w \in {"cuda:1", "cuda::1"} -> "cuda::1"
               [] w \in {"metal", "Metal"} -> "metal" [] w \in {"rocm", "rocm::0"} -> "rocm::0" [] w = "odd" -> "odd" [] w = "nowhere" -> "nowhere" [] OTHER -> ""
Words == {"cpu", "CPU", "cuda", "cuda:0", "CUDA::0", "cuda::0", "cuda:1", "cuda::1", "metal", "Metal", "rocm", "rocm::0", "odd", "nowhere", "cuda::x", "cuda:-1", "cudax", "rocm:x", "rocmx"}
Lower(d) == IF d = "CPU" THEN "cpu" ELSE d
Holders(d) == {i \in 1..3 : \E c \in Claims[i] : Lower(c) = d}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
\* the backend asked for, 0 for none
Backend(name, d) == CASE name = "" -> IF Holders(d) = {} THEN 0 ELSE Least(Holders(d))
                      [] name = "b1" -> 1 [] name \in {"b2", "hodu-backend-b2"} -> 2 [] name = "b3" -> 3 [] OTHER -> 0
Asked == {"", "", "", "b1", "b2", "hodu-backend-b2", "b3", "b", "nosuch"}
\* how each input is given
Given == {"hdt", "hdt", "hdt", "json", "json", "lower", "late"}
Wrong == {"missing", "nofile", "shape", "dtype", "broken", "ext", "extra"}
Builds == {"err", "partial", "crash", "nothing", "swap"}
Runs == {"runerr", "runcrash"}
Init == /\ hist = <<>> /\ done = FALSE /\ built = {} /\ ver = [i \in 1..3 |-> 1]
        /\ \E x \in {[m \in 1..NM |-> Model(m)]} : models = x
        /\ \E x \in {[p \in Paths |-> R(1..NM)]} : at = x
Fresh(w, m) == [n \in DOMAIN models[m] |-> Value(models[m][n].dt, models[m][n].sh)]
\* one run: what must come out. "ok": this artifact, these inputs; "err": refused; "may": a failing build an older artifact may spare;
\* "open": the model is another one (`other`) for as long as the build takes
Run(p, w, b, how, mode, form) ==
    LET m == at[p] d == Device(w) k == Backend(b, d)
        art == [m |-> m, d |-> d, k |-> k, v |-> ver[k]]
        bad == d = "" \/ k = 0 \/ \E n \in DOMAIN how : how[n] \in Wrong
        stale == mode \in Builds
        verdict == IF bad \/ mode \in Runs \/ (stale /\ art \notin built) THEN "err" ELSE IF stale THEN "may" ELSE "ok" IN
    /\ hist' = Append(hist, [op |-> "run", p |-> p, m |-> m, w |-> w, b |-> b, d |-> d, k |-> k, v |-> IF k = 0 THEN 0 ELSE ver[k], how |-> how, ins |-> Fresh(w, m), mode |-> mode, form |-> form, verdict |-> IF mode = "swap" /\ ~bad /\ verdict = "err" THEN "open" ELSE verdict, other |-> (m % NM) + 1])
    /\ built' = IF verdict = "ok" THEN built \cup {art} ELSE IF mode \in Runs /\ ~bad THEN built \cup {art} ELSE built
    /\ UNCHANGED <<at, ver>>
\* two runs of the same at the same time, the second while the first builds
Both(p, w) == LET d == Device(w) k == Backend("", d) m == at[p] IN
    /\ d # "" /\ k # 0
    /\ hist' = Append(hist, [op |-> "both", p |-> p, m |-> m, w |-> w, b |-> "", d |-> d, k |-> k, v |-> ver[k], how |-> [n \in DOMAIN models[m] |-> "hdt"], ins |-> Fresh(w, m), mode |-> "slow", form |-> "hdt", verdict |-> "ok", other |-> m])
    /\ built' = built \cup {[m |-> m, d |-> d, k |-> k, v |-> ver[k]]} /\ UNCHANGED <<at, ver>>
Note(op, p, m, k) == hist' = Append(hist, [op |-> op, p |-> p, m |-> m, w |-> "", b |-> "", d |-> "", k |-> k, v |-> 0, how |-> <<>>, ins |-> <<>>, mode |-> "", form |-> "", verdict |-> "", other |-> m])
Change(p, m) == Note("change", p, m, 0) /\ at' = [at EXCEPT ![p] = m] /\ UNCHANGED <<ver, built>>
Upgrade(k) == hist' = Append(hist, [op |-> "upgrade", p |-> "", m |-> 0, w |-> "", b |-> "", d |-> "", k |-> k, v |-> ver[k] + 1, how |-> <<>>, ins |-> <<>>, mode |-> "", form |-> "", verdict |-> "", other |-> 0])
              /\ ver' = [ver EXCEPT ![k] = @ + 1] /\ UNCHANGED <<at, built>>
How(m) == LET right == [n \in DOMAIN models[m] |-> R(Given)] IN
          IF R(1..5) > 1 \/ DOMAIN right = {} THEN right ELSE [right EXCEPT ![R(DOMAIN right)] = R(Wrong)]
Step == \E j \in {R(1..10)}, p \in {R(Paths)}, w \in {IF R(1..3) > 1 THEN R({"cpu", "cuda", "metal"}) ELSE R(Words)} :
        CASE j = 1 -> \E m \in {R(1..NM)} : Change(p, m)
          [] j = 2 /\ R(1..2) = 1 -> \E k \in {R(1..3)} : Upgrade(k)
          [] j = 3 /\ Device(w) # "" /\ Holders(Device(w)) # {} -> Both(p, w)
          [] OTHER -> \E b \in {IF R(1..2) = 1 THEN "" ELSE R(Asked)}, mode \in {IF R(1..5) > 2 THEN "none" ELSE R(Builds \cup Runs)}, form \in {R({"hdt", "hdt", "json", "show", "quiet"})}, h \in {How(at[p])} : Run(p, w, b, h, mode, form)
Emit == CSVWrite("%1$s", <<ToJson([models |-> models, hist |-> hist])>>, IOEnv.OUT)
Next == \/ Len(hist) < Depth /\ (IF hist = <<>> THEN \E p \in {R(Paths)} : Change(p, at[p]) ELSE IF Len(hist) = 1 THEN \E p \in {CHOOSE q \in Paths : q # hist[1].p} : Change(p, at[p]) ELSE Step) /\ UNCHANGED <<models, done>>
        \/ Len(hist) = Depth /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED <<models, at, ver, built, hist>>
Spec == Init /\ [][Next]_vars
\* only what was completely built is ever served without building
Served == \A i \in DOMAIN hist : hist[i].verdict = "may" => \E j \in 1..(i - 1) : hist[j].op \in {"run", "both"} /\ hist[j].mode \notin Builds /\ <<hist[j].m, hist[j].d, hist[j].k, hist[j].v>> = <<hist[i].m, hist[i].d, hist[i].k, hist[i].v>>
Refused == \A i \in DOMAIN hist : hist[i].op = "run" /\ (\E n \in DOMAIN hist[i].how : hist[i].how[n] \in Wrong) => hist[i].verdict = "err"
=============================================================================
