------------------------------ MODULE MCInstall ------------------------------
(* C05. Installing, updating and removing plugins from source packages that change over time. An
   installation is the package's manifest entered in the registry and the package's executable and
   manifest, and nothing else, in a directory of its own; it happens as a whole or not at all. *)
EXTENDS Registry, Integers, Json, CSV, IOUtils
CONSTANTS Depth, Sim
VARIABLES src, reg, hist, done
vars == <<src, reg, hist, done>>
R(S) == RandomElement(S)
Srcs == {"s1", "s2", "s3", "s4"}                   \* s3 and s4 are git repositories; s4 is a directory of one, on a branch of its own
Gits == {"s3", "s4"}
PlainNames == {"a", "b", "hodu-backend-a", "hodu-format-b", "two words"}
OddNames == {"..", ".", "", "../x", "a/b", "@/abs", "a/../../y"}
Asks == {"a", "b", "hodu-backend-a", "hodu-format-b", "x", ".."}
\* what a package holds: manifest name, revision, protocol version, how its build ends, package name, how Cargo.toml is written
P(n, v, pr, b, pk, st, kd, dp) == [name |-> n, v |-> v, proto |-> pr, build |-> b, pkg |-> pk, style |-> st, kind |-> kd, deps |-> dp]
Protos == {"same", "older", "newer", "major", "patch"}
Builds == {"ok", "fail", "nothing", "nomanifest", "badmanifest"}
Styles == {"plain", "comment", "later", "spaces", "single"}
Mostly(x, S) == IF R(1..3) > 1 THEN x ELSE R(S)
RandP(v) == P(IF R(1..4) > 1 THEN R(PlainNames) ELSE R(OddNames), v, Mostly("same", Protos), Mostly("ok", Builds), R({"p1", "p2"}), Mostly("plain", Styles), R(Kinds),
              IF R(1..3) = 1 THEN {R(PlainNames)} ELSE {})
Base(s) == P(CASE s = "s1" -> "a" [] s = "s2" -> "hodu-backend-a" [] s = "s3" -> "b" [] OTHER -> "hodu-format-b", 0, "same", "ok", "p1", "plain", "backend", {})
None == [name |-> "-"]
Gone(p) == p = None
\* can this package be installed at all
Sound(p) == ~Gone(p) /\ p.build = "ok" /\ p.proto \in {"same", "older", "patch"} /\ p.name \in PlainNames
Inst(s, dbg) == [name |-> src[s].name, p |-> src[s], src |-> s, dbg |-> dbg, enabled |-> TRUE, deps |-> src[s].deps]
Put(r, e) == Upsert(r, e)
Step(c, ok, may) == /\ hist' = Append(hist, [c |-> c, ok |-> ok, may |-> may, src |-> src'])
Cmd(op, x, force, dbg, fault) == [op |-> op, x |-> x, force |-> force, dbg |-> dbg, fault |-> fault]
Faults == {"none", "registry", "full"}
\* may: for every name, the entries that may be there afterwards
Exactly(r) == [n \in PlainNames |-> {e \in r : e.name = n}]
As(r) == [n \in PlainNames |-> {{e} : e \in {e \in r : e.name = n}} \cup (IF Has(r, n) THEN {} ELSE {{}})]
Install(s, force, dbg, fault) ==
    LET can == Sound(src[s]) /\ (~Has(reg, src[s].name) \/ force) /\ fault = "none"
        r == IF can THEN Put(reg, Inst(s, dbg)) ELSE reg IN
    /\ reg' = r /\ UNCHANGED src /\ Step(Cmd("install", s, force, dbg, fault), can, As(r))
\* an update installs every chosen plugin anew from where it came; packages that are gone are left out
Update(n, fault) ==
    LET one == n # "*"
        m == IF one THEN Resolve(reg, n) ELSE "*"
        es == IF one THEN {e \in reg : e.name = m} ELSE reg
        live == {e \in es : e.src \in Gits \/ ~Gone(src[e.src])}
        ok == (one => m # "?") /\ \A e \in live : Sound(src[e.src]) /\ fault = "none"
        new == {Inst(e.src, FALSE) : e \in {e \in live : Sound(src[e.src]) /\ fault = "none"}}
        may == [k \in PlainNames |-> LET now == {e \in reg : e.name = k} next == {e \in new : e.name = k} IN
                    IF next = {} THEN {now} ELSE {{e} : e \in next} \cup (IF ok THEN {} ELSE {now})] IN
    \* two packages of one name, or an update that stops on the way, leave a choice: the history goes on only without one
    /\ UNCHANGED src /\ Step(Cmd("update", n, TRUE, FALSE, fault), ok, may)
    /\ reg' = IF \A k \in PlainNames : Cardinality(may[k]) = 1 THEN UNION {UNION may[k] : k \in PlainNames} ELSE {None}
Drop(n) == LET m == Resolve(reg, n) r == IF m = "?" THEN reg ELSE Remove(reg, m) IN
           /\ reg' = r /\ UNCHANGED src /\ Step(Cmd("remove", n, FALSE, FALSE, "none"), m # "?", As(r))
Switch(n, on) == LET cmd == IF on THEN "enable" ELSE "disable" o == Command(reg, cmd, n) IN
                 /\ reg' = o.r /\ UNCHANGED src /\ Step(Cmd(cmd, n, FALSE, FALSE, "none"), o.ok, As(o.r))
Edit(s, p) == /\ src' = [src EXCEPT ![s] = p] /\ UNCHANGED reg /\ Step(Cmd("edit", s, FALSE, FALSE, "none"), TRUE, As(reg))
Init == src = [s \in Srcs |-> Base(s)] /\ reg = {} /\ hist = <<>> /\ done = FALSE
v == Len(hist) + 1
Do == IF Sim THEN \E k \in {R(1..12)} :
          CASE k \in 1..4 -> (\E s \in {R(Srcs)}, f \in {R(BOOLEAN)}, d \in {R(1..4) = 1}, x \in {Mostly("none", Faults)} : Install(s, f, d, x))
            [] k \in 5..6 -> (\E n \in {Mostly("*", Asks)}, x \in {Mostly("none", Faults)} : Update(n, x))
            [] k = 7 -> (\E n \in {R(Asks)} : Drop(n))
            [] k \in 8..9 -> (\E n \in {R(Asks)} : Switch(n, R(1..3) = 1))
            [] OTHER -> (\E s \in {R(Srcs)}, p \in {IF R(1..6) = 1 THEN None ELSE RandP(v)} : Edit(s, p))
      ELSE \/ \E s \in {"s1", "s3"}, f \in BOOLEAN, x \in Faults : Install(s, f, FALSE, x)
           \/ \E n \in {"*", "b"}, x \in Faults : Update(n, x)
           \/ \E s \in {"s1", "s3"} : \E p \in {None} \cup {[Base(s) EXCEPT !.v = v, !.name = n] : n \in {"a", "b", ".."}} \cup {[Base(s) EXCEPT !.v = v, !.build = b] : b \in Builds}
                   \cup {[Base(s) EXCEPT !.v = v, !.pkg = "p2"]} \cup {[Base(s) EXCEPT !.v = v, !.proto = q] : q \in Protos} : Edit(s, p)
Emit == CSVWrite("%1$s", <<ToJson([hist |-> hist, base |-> [s \in Srcs |-> Base(s)], names |-> PlainNames])>>, IOEnv.OUT)
Stuck == reg = {None}
Next == \/ Len(hist) < Depth /\ ~Stuck /\ Do /\ UNCHANGED done
        \/ (Len(hist) = Depth \/ Stuck) /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED <<src, reg, hist>>
Spec == Init /\ [][Next]_vars
OneEach == \A x, y \in reg : x.name = y.name => x = y
SoundOnly == Stuck \/ \A e \in reg : e.name \in PlainNames /\ Sound(e.p)
\* a command that fails for one package changes nothing but what updates of others changed
Kept == [][\A i \in {Len(hist')} \ {0} : Len(hist') > Len(hist) /\ ~hist'[i].ok /\ hist'[i].c.op # "update" => reg' = reg]_vars
=============================================================================
