-------------------------------- MODULE MCClean --------------------------------
(* C02. The cleaning command over a tree of files: for every argument, which files have to be gone
   afterwards and which may be. Arguments are paths of segments, resolved as the file system would. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Sim
VARIABLES present, hist, done
vars == <<present, hist, done>>
R(S) == RandomElement(S)
Units == {"home", "out", "reg", "conf", "plug", "A", "B", "P", "D", "L", "S"}
Path == [home |-> <<"precious">>, out |-> <<"out">>, reg |-> <<".hodu", "plugins.json">>, conf |-> <<".hodu", "config">>, plug |-> <<".hodu", "plugins", "x">>,
         A |-> <<".hodu", "cache", "A">>, B |-> <<".hodu", "cache", "B">>, P |-> <<".hodu", "cache", "hodu-backend-A-plugin">>, D |-> <<".hodu", "cache", "..D">>,
         L |-> <<".hodu", "cache", "L">>, S |-> <<".hodu", "cache", "A B">>]       \* L is a link to out
Under(u, p) == Len(Path[u]) >= Len(p) /\ SubSeq(Path[u], 1, Len(p)) = p
Hodu == {u \in Units : Under(u, <<".hodu">>)}
Cache == {u \in Units : Under(u, <<".hodu", "cache">>)}
Segs == {"A", "B", "..D", "A B", "L", "..", ".", "", "cache", "plugins", ".hodu", "out", "precious", "nosuch", "hodu-backend-A-plugin", "x", "config", "plugins.json", "hash"}
\* the name of exactly one entry of the cache
Plain(b) == ~b.abs /\ Len(b.segs) = 1 /\ b.segs[1] \notin {"", ".", ".."}
RECURSIVE Walk(_, _)
Walk(p, s) == IF s = <<>> THEN p
              ELSE CASE s[1] \in {"", "."} -> Walk(p, Tail(s))
                     [] s[1] = ".." -> Walk(IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1), Tail(s))
                     [] OTHER -> Walk(Append(p, s[1]), Tail(s))
Where(b) == Walk(IF b.abs THEN <<>> ELSE <<".hodu", "cache">>, b.segs)
Entries(p) == IF Len(p) = 3 /\ SubSeq(p, 1, 2) = <<".hodu", "cache">> THEN {u \in Units : Path[u] = p} ELSE {}
None == [abs |-> FALSE, segs |-> <<>>, given |-> FALSE]
\* what has to go and what may go
Verdict(a) ==
    IF a.dry THEN [must |-> {}, may |-> {}]
    ELSE IF a.all THEN IF a.b.given THEN [must |-> {}, may |-> Hodu] ELSE [must |-> Hodu, may |-> Hodu]
    ELSE IF ~a.b.given THEN [must |-> Cache, may |-> Cache]
    ELSE IF Plain(a.b) THEN LET own == Entries(Where(a.b)) \cap present
                                fam == (IF a.b.segs = <<"A">> THEN {"P"} ELSE {}) \cap present
                                u == IF own # {} THEN own ELSE fam IN
                            [must |-> u \ {"L"}, may |-> u]
    ELSE [must |-> {}, may |-> Entries(Where(a.b)) \cap present]
Args(b) == {[dry |-> d, all |-> l, b |-> b] : d \in BOOLEAN, l \in BOOLEAN}
Some(k) == IF R(1..3) = 1 THEN None ELSE [abs |-> R(1..4) = 1, given |-> TRUE, segs |-> LET n == R({1, 1, 2, 3, 4}) IN [i \in 1..n |-> R(Segs)]]
Pick(k) == LET b == Some(k) IN IF R(1..3) > 1 THEN [dry |-> FALSE, all |-> FALSE, b |-> b] ELSE R(Args(b))
All == {None} \cup {[abs |-> x, given |-> TRUE, segs |-> s] : x \in BOOLEAN, s \in [1..1 -> Segs] \cup [1..2 -> {"A", "B", "L", "..", ".", "", "cache", "out", "precious"}]}
Clean(a) == LET v == Verdict(a) IN
            /\ hist' = Append(hist, [a |-> a, before |-> present, must |-> v.must \cap present, may |-> v.may \cap present])
            /\ present' = IF v.must = v.may THEN present \ v.must ELSE present
Init == hist = <<>> /\ done = FALSE /\ (IF Sim THEN \E x \in {{u \in Units : R(1..4) > 1}} : present = x \cup {"out"} ELSE present \in {Units, Units \ {"A"}})
Put == present' = present \cup {R(Units), R(Units), R(Units)} /\ UNCHANGED hist
Step == IF Sim THEN (\E k \in {R(1..4)} : IF k = 1 /\ present # Units THEN Put ELSE \E a \in {Pick(k)} : Clean(a))
        ELSE \E b \in All : \E a \in Args(b) : Clean(a)
Emit == CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
Next == \/ Len(hist) < Depth /\ Step /\ UNCHANGED done
        \/ Len(hist) = Depth /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED <<present, hist>>
Spec == Init /\ [][Next]_vars
Inside == \A i \in DOMAIN hist : hist[i].may \subseteq Hodu
Ordered == \A i \in DOMAIN hist : hist[i].must \subseteq hist[i].may /\ hist[i].may \subseteq hist[i].before
Named == \A i \in DOMAIN hist : hist[i].a.b.given /\ ~hist[i].a.all => Cardinality(hist[i].may) <= 1 /\ hist[i].may \subseteq Cache
Dry == \A i \in DOMAIN hist : hist[i].a.dry => hist[i].may = {}
=============================================================================
