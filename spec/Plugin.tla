------------------------------- MODULE Plugin -------------------------------
(* The plugin protocol: JSON-RPC messages, one per line, over the standard streams of a plugin.
   Server side: what a plugin server owes to each message, in order.
   Client side: what a call may return, given the lines the plugin has sent so far. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
\* ------------------------------------------------------------------ server
\* error codes
ParseError == -32700
InvalidRequest == -32600
NotFound == -32601
InvalidParams == -32602
Internal == -32603
\* Methods of the server under test: m -> what a request with well-formed params gets
Handlers == {"echo", "fixed", "fail", "noisy", "unit", "unser"}
NeedsParams(m) == m \in {"echo", "noisy", "fail"}
\* params classes: "ok" well-formed, "missing", "wrong"
Handle(m, p) ==
    IF NeedsParams(m) /\ p # "ok" THEN [k |-> "err", code |-> InvalidParams]
    ELSE CASE m = "fail" -> [k |-> "err", code |-> -32003]
           [] m = "unser" -> [k |-> "err", code |-> Internal]
           [] OTHER -> [k |-> "ok", code |-> 0]
\* messages: [k: req|note|bad|open, m, p]; server state: [init, gone]
Fresh == [init |-> FALSE, gone |-> FALSE]
\* what the server must write for one message (a sequence of answers), and its next state
Silent(s) == [s |-> s, out |-> <<>>]
Answers(s, r) == [s |-> s, out |-> <<r>>]
ServerStep(s, x) ==
    IF s.gone THEN Silent(s)
    ELSE CASE x.k = "note" -> Silent(s)
           [] x.k = "bad" -> Answers(s, [k |-> "bad", code |-> 0])
           [] x.k = "open" -> Answers(s, [k |-> "open", code |-> 0])
           [] x.m = "shutdown" -> Silent([s EXCEPT !.gone = TRUE])
           [] x.m = "initialize" ->
                IF s.init THEN Answers(s, [k |-> "err", code |-> InvalidRequest])
                ELSE IF x.p # "ok" THEN Answers(s, [k |-> "err", code |-> InvalidParams])
                ELSE Answers([s EXCEPT !.init = TRUE], [k |-> "ok", code |-> 0])
           [] x.m = "cancel" -> Answers(s, [k |-> "any", code |-> 0])   \* how a cancel request is answered is not said
           [] ~s.init -> Answers(s, [k |-> "err", code |-> InvalidRequest])
           [] x.m \in Handlers -> Answers(s, Handle(x.m, x.p))
           [] OTHER -> Answers(s, [k |-> "err", code |-> NotFound])
\* ------------------------------------------------------------------ client
\* A line: [k, of]; "of" the call it belongs to. Lines that are not a response to the call being
\* waited for never end it, except that a line which is no protocol message may end it with an error.
Own == {"own", "ownErr", "ownNull", "ownEmpty", "ownWrong"}
Stale == {"stale", "staleErr"}                     \* answers to earlier requests of this client
Loose == {"garbage", "utf8", "blank", "notobj", "nullid", "foreign", "strid"}
Notes == {"note", "log", "cancel", "cancelQuiet"}
UnitOps == {"save_model", "save_tensor", "build"}
Incompatible == {"init_major", "init_zero"}        \* initialise against a plugin of another protocol
Outcome(l, op) == CASE l.k = "own" -> IF op \in Incompatible THEN "err" ELSE "ok"
                    [] l.k = "ownErr" -> "rpc"
                    [] l.k = "ownNull" -> IF op \in UnitOps THEN "ok" ELSE "err"
                    [] l.k = "ownWrong" -> IF op \in UnitOps THEN "ok" ELSE "err"
                    [] OTHER -> "err"
IsOwn(l, i) == l.k \in Own /\ l.of = i
\* all the ways a call i of kind op can end on the lines q: outcome and the lines left over
RECURSIVE Scan(_, _, _)
Scan(q, i, op) ==
    IF q = <<>> THEN {[r |-> "err", q |-> <<>>]}   \* timeout, or the plugin is gone
    ELSE LET l == Head(q) IN
         IF IsOwn(l, i) THEN {[r |-> Outcome(l, op), q |-> Tail(q)]}
         ELSE IF l.k \in Loose THEN {[r |-> "err", q |-> Tail(q)]} \cup Scan(Tail(q), i, op)
         ELSE Scan(Tail(q), i, op)
=============================================================================
