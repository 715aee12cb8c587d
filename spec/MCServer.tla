------------------------------ MODULE MCServer ------------------------------
(* P01. Message sequences and the answers a plugin server owes them. *)
EXTENDS Plugin, Json, CSV, IOUtils
CONSTANTS Depth, Sim, Small
VARIABLES hist, s, owed, style, done
vars == <<hist, s, owed, style, done>>
R(S) == RandomElement(S)
Req(m, p) == [k |-> "req", m |-> m, p |-> p]
Msgs == {Req(m, p) : m \in {"initialize", "echo", "noisy", "fail"}, p \in {"ok", "missing", "wrong"}}
        \cup {Req(m, p) : m \in {"fixed", "unit", "unser"}, p \in {"ok", "missing"}}
        \cup {Req(m, "ok") : m \in {"unknown", "empty", "cancel", "almost", "shutdown"}}
        \cup {[k |-> "note", m |-> m, p |-> "ok"] : m \in {"echo", "unknown", "cancel", "noisy"}}
        \cup {[k |-> "note", m |-> "echo", p |-> "wrong"]}
        \cup {[k |-> "bad", m |-> m, p |-> "ok"] : m \in {"notjson", "number", "batch", "noMethod", "floatid", "nullid", "utf8", "methodnum", "cut", "deep", "long", "twice"}}
        \cup {[k |-> "open", m |-> m, p |-> "ok"] : m \in {"empty", "blank", "noIdNoMethod", "response"}}
Few == {Req("initialize", "ok"), Req("initialize", "wrong"), Req("echo", "ok"), Req("echo", "missing"), Req("fixed", "ok"), Req("fail", "ok"), Req("noisy", "ok"),
        Req("unit", "ok"), Req("unser", "ok"), Req("unknown", "ok"), Req("cancel", "ok"), Req("shutdown", "ok"), [k |-> "note", m |-> "echo", p |-> "ok"],
        [k |-> "note", m |-> "cancel", p |-> "ok"], [k |-> "bad", m |-> "notjson", p |-> "ok"], [k |-> "bad", m |-> "utf8", p |-> "ok"], [k |-> "open", m |-> "empty", p |-> "ok"]}
Alphabet == IF Small THEN Few ELSE Msgs
\* a shutdown is kept for later in long histories, and most of them initialise
Likely(n) == IF n = 0 /\ R(1..3) # 1 THEN {Req("initialize", "ok")} ELSE IF R(1..4) # 1 THEN Alphabet \ {Req("shutdown", "ok")} ELSE Alphabet
Styles == [crlf : BOOLEAN, nl : BOOLEAN, extra : BOOLEAN, ids : 0..5, chunk : {0, 1, 7}]
Init == hist = <<>> /\ s = Fresh /\ owed = <<>> /\ done = FALSE
        /\ IF Sim THEN \E y \in {R(Styles)} : style = y ELSE \E i \in 0..1 : style = [crlf |-> FALSE, nl |-> TRUE, extra |-> FALSE, ids |-> i, chunk |-> 0]
Send == /\ ~done /\ Len(hist) < Depth
        /\ \E x \in (IF Sim THEN {R(Likely(Len(hist)))} ELSE Alphabet) :
             LET t == ServerStep(s, x) IN
             /\ hist' = Append(hist, x) /\ s' = t.s
             /\ owed' = owed \o [i \in 1..Len(t.out) |-> [k |-> t.out[i].k, code |-> t.out[i].code, to |-> Len(hist) + 1]]
        /\ UNCHANGED <<style, done>>
Emit == CSVWrite("%1$s", <<ToJson([msgs |-> hist, owed |-> owed, style |-> style, gone |-> s.gone])>>, IOEnv.OUT)
Stop == ~done /\ Len(hist) = Depth /\ Emit /\ done' = TRUE /\ UNCHANGED <<hist, s, owed, style>>
Next == Send \/ Stop
Spec == Init /\ [][Next]_vars
\* ---- the property, on the specification itself
To(i) == {j \in DOMAIN owed : owed[j].to = i}
Before(i, P(_)) == \E j \in 1..(i - 1) : P(hist[j])
IsShutdown(x) == x.k = "req" /\ x.m = "shutdown"
IsInit(x) == x.k = "req" /\ x.m = "initialize" /\ x.p = "ok"
OnceEach == \A i \in DOMAIN hist : Cardinality(To(i)) = (IF hist[i].k = "note" \/ IsShutdown(hist[i]) \/ Before(i, IsShutdown) THEN 0 ELSE 1)
InOrder == \A i, j \in DOMAIN owed : i < j => owed[i].to < owed[j].to
InitOnce == Cardinality({j \in DOMAIN owed : owed[j].k = "ok" /\ hist[owed[j].to].m = "initialize"}) <= 1
NotBefore == \A j \in DOMAIN owed : owed[j].k = "ok" /\ hist[owed[j].to].m # "initialize" => Before(owed[j].to, IsInit)
=============================================================================
