------------------------------- MODULE MCConvert -------------------------------
(* C04. Conversions between files: which file holds which contents, over chains of conversions some of
   which fail - unreadable sources, unknown formats, plugins that break, a full disk. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth, NPool, Sim
VARIABLES pool, files, hist, done
vars == <<pool, files, hist, done>>
R(S) == RandomElement(S)
Absent == 0
Broken == 99
Wd(dt) == CASE dt \in {0, 1, 2, 7, 11} -> 1 [] dt \in {3, 4, 8, 12} -> 2 [] dt \in {5, 9, 13} -> 4 [] OTHER -> 8
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Byte(dt) == IF dt = 0 THEN R({0, 1}) ELSE R({0, 1, 126, 127, 128, 192, 240, 248, 255, R(0..255), R(0..255), R(0..255)})
Content(k) == LET dt == R(0..14) sh == [i \in 1..R(0..3) |-> R({0, 1, 2, 2, 3, 3})] IN
           [dt |-> dt, sh |-> sh, b |-> [i \in 1..(Prod(sh) * Wd(dt)) |-> Byte(dt)]]
\* the files: their format, the file a name leads to, and where nothing can be written
Names == {"a.hdt", "b.hdt", "c.json", "D.JSON", "e.fk", "f.Fk", "l.hdt", "sub/g.hdt", "k.json", "m.hdss", "n.hdss"}
Dead == {"none/h.hdt", "dir.hdt", "dir.fk", "x.bin", "noext", "none/h.fk"}
File(p) == IF p = "l.hdt" THEN "a.hdt" ELSE p
Format(p) == CASE p \in {"a.hdt", "b.hdt", "l.hdt", "sub/g.hdt", "none/h.hdt", "dir.hdt"} -> "hdt" [] p \in {"c.json", "D.JSON", "k.json"} -> "json"
               [] p \in {"e.fk", "f.Fk", "dir.fk", "none/h.fk"} -> "fk" [] p \in {"m.hdss", "n.hdss"} -> "hdss" [] OTHER -> "other"
Real == Names \ {"l.hdt"}
Init == /\ hist = <<>> /\ done = FALSE
        /\ \E x \in {[i \in 1..NPool |-> Content(i)]} : pool = x
        /\ \E x \in {[p \in Real |-> IF R(1..3) = 1 THEN Absent ELSE R(1..NPool)]} : files = x
Faults == {"none", "full", "err", "partial", "crash", "nothing", "badload", "failload"}
Saving == {"err", "partial", "crash", "nothing"}
Loading == {"badload", "failload"}
Succeeds(s, d, f) ==
    /\ File(s) \in Real /\ File(d) \in Real /\ files[File(s)] \notin {Absent, Broken}
    /\ (Format(s) = "hdss") = (Format(d) = "hdss")
    /\ f # "full"
    /\ ~(f \in Saving /\ Format(d) = "fk") /\ ~(f \in Loading /\ Format(s) = "fk")
Convert(s, d, f) == LET ok == Succeeds(s, d, f)
                        g == IF ok THEN [files EXCEPT ![File(d)] = files[File(s)]] ELSE files IN
    /\ files' = g
    /\ hist' = Append(hist, [op |-> "convert", src |-> s, dst |-> d, fault |-> f, ok |-> ok, files |-> g])
Change(p, v) == files' = [files EXCEPT ![p] = v] /\ hist' = Append(hist, [op |-> "change", src |-> p, dst |-> "", fault |-> "", ok |-> TRUE, files |-> files'])
Step == \E k \in {R(1..8)}, s \in {IF R(1..12) = 1 THEN R(Dead) ELSE R(Names)}, d \in {IF R(1..8) = 1 THEN R(Dead) ELSE R(Names)} : \E f \in {IF R(1..2) = 1 THEN "none" ELSE R(IF d = "dir.fk" THEN Faults \ {"nothing"} ELSE Faults)} :
        IF k = 1 /\ s \in Real /\ Format(s) # "hdss" THEN Change(s, R({Absent, Broken, R(1..NPool), R(1..NPool)})) ELSE Convert(s, d, f)
Emit == CSVWrite("%1$s", <<ToJson([pool |-> pool, hist |-> hist])>>, IOEnv.OUT)
Next == \/ Len(hist) < Depth /\ (IF hist = <<>> THEN hist' = <<[op |-> "start", src |-> "", dst |-> "", fault |-> "", ok |-> TRUE, files |-> files]>> /\ UNCHANGED files ELSE Step) /\ UNCHANGED <<pool, done>>
        \/ Len(hist) = Depth /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED <<pool, files, hist>>
Spec == Init /\ [][Next]_vars
Untouched == \A i \in 2..Len(hist) : LET h == hist[i] o == hist[i - 1].files IN
             h.op = "convert" => /\ \A p \in Real : p # File(h.dst) => h.files[p] = o[p]
                                 /\ ~h.ok => h.files = o
                                 /\ h.ok => h.files[File(h.dst)] = o[File(h.src)]
Sized == \A i \in DOMAIN pool : Len(pool[i].b) = Prod(pool[i].sh) * Wd(pool[i].dt)
=============================================================================
