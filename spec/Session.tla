------------------------------- MODULE Session -------------------------------
(* Connecting: greeting, authentication, set-up queries and the request for
   events.  The state of one session seen from the wire, with the messages
   the client may send in each state (Allowed) and what every message of
   either side does to the state (After).  Session is model checked with
   every server policy; SessionTrace replays the sessions recorded from the
   real client through the same two operators.

   A world w fixes the options of the client and the policy of the server:
     maria, strat   flavor of the server; "start" "pos" "end" "gtid"
     plugin         of the greeting: "native" "sha2" "other"
     r1             answer to the first proof: "ok" "fast" "full" "switch"
     plugin2, r2    after a switch: its plugin and the answer to that proof
     pw, db         password not empty; a default database is configured
     ssl, cap       the client's SSL mode "off", "try" (if available), "must"
                    (required, with or without verification); the server
                    offers SSL "yes" "no" ("any": of no importance)
     at, how        the exchange that fails ("none") and how: "err" an error
                    packet, "close" no answer, "mid" part of one, "row" an
                    error packet after the head of a result set, "col" within
                    that head, "junk" a reply without what was asked for; "cut" a packet of the reply, "cuterr" the error
                    packet lacks its end, "flip" a packet of the reply is
                    altered (nothing is said about the client then, except
                    that it does not crash: phase "free")                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Strats == {"start", "pos", "end", "gtid"}
Supported == {"native", "sha2"}

(* ------------------------------ the state of a session ------------------------------ *)
(* ph: "greet" the greeting is expected; "proof" the client has to prove itself;
       "answer" the server has to answer; "fast" its last word is due; "key" the client has to
       ask for the key; "rsa" to use it; "cmd" the client may send requests; "wait" one is
       unanswered; "stream" events are requested; "dead" something failed;
       "ssl" the client has to ask for encryption; "tls" to begin it; "refuse" to give up
   chal, plug: the challenge in force; back: where the answer leads
   ok: requests answered; cur: the one unanswered; seq: number of the last packet of the server; rec: a position is recorded *)
Fresh(rec) == [ph |-> "greet", chal |-> 0, plug |-> "none", ok |-> {}, cur |-> "none", seq |-> 0, msg |-> FALSE, rec |-> rec]

Required(w, rec) ==
  {"hb", "ckset", "ckget"}
  \cup (IF w.strat = "end" /\ ~rec THEN {"status"} ELSE {})
  \cup (IF w.maria THEN {"cap"} ELSE {})
  \cup (IF w.maria /\ w.strat = "gtid" THEN {"cstate", "register"} ELSE {})
Optional == {"strict", "ignoredup", "other"}

(* the proof a client owes for the challenge in force *)
Proof(w, c) == IF w.pw THEN [p |-> c.plug, n |-> c.chal] ELSE [p |-> "empty", n |-> 0]

(* ------------------------------ what the client may send ------------------------------ *)
(* m: [m kind, proof, seq, plugin, who (user name and database as configured), fit (contents as configured)] *)
Allowed(w, rec0, c, m) ==
  CASE c.ph = "proof" \/ (c.ph = "ssl" /\ w.ssl = "try" /\ m.m = "auth") ->     \* "try" may fall back to plain text
                         /\ m.m = (IF c.chal = 1 THEN "auth" ELSE "switch")
                         /\ c.plug \in Supported
                         /\ m.proof = Proof(w, c)
                         /\ m.seq = c.seq + 1
                         /\ m.fit
                         /\ c.chal = 1 => m.plugin = c.plug /\ m.who
    [] c.ph = "ssl" -> m.m = "sslreq" /\ m.seq = c.seq + 1 /\ m.fit
    [] c.ph = "tls" -> m.m = "tls"
    [] c.ph = "key" -> m.m = "keyreq" /\ m.seq = c.seq + 1
    [] c.ph = "rsa" -> m.m = "rsa" /\ m.proof = [p |-> "rsa", n |-> c.chal] /\ m.seq = c.seq + 1
    [] c.ph = "cmd" -> /\ m.seq = 0
                       /\ m.m \in Required(w, rec0) \cup Optional \cup {"dump"}
                       /\ m.m = "ckget" => "ckset" \in c.ok
                       /\ m.m = "status" => ~c.rec
                       /\ m.fit
                       /\ m.m = "dump" => Required(w, rec0) \subseteq c.ok
    [] c.ph = "free" -> TRUE
    [] OTHER -> FALSE

(* ------------------------------ what a server may send ------------------------------ *)
Replies(w, c) ==
  CASE c.ph = "greet" -> {"greet"}
    [] c.ph = "answer" /\ c.cur = "auth" -> {w.r1}
    [] c.ph = "answer" /\ c.cur = "switch" -> {w.r2}
    [] c.ph = "answer" /\ c.cur = "keyreq" -> {"key"}
    [] c.ph = "answer" /\ c.cur = "rsa" -> {"ok"}
    [] c.ph = "fast" -> {"ok"}
    [] c.ph = "wait" -> {"ok"}
    [] OTHER -> {}
(* the name by which a fault finds its exchange *)
Exchange(c) == CASE c.ph = "greet" -> "greet" [] c.ph = "fast" -> "fast" [] c.ph \in {"answer", "wait"} -> c.cur [] OTHER -> "none"
Failures == {"err", "close", "mid", "row", "col", "junk"}

(* ------------------------------ what a message does ------------------------------ *)
AfterClient(c, m) ==
  CASE c.ph = "free" -> c
    [] m.m \in {"auth", "switch", "keyreq", "rsa"} -> [c EXCEPT !.ph = "answer", !.cur = m.m]
    [] m.m = "dump" -> [c EXCEPT !.ph = "stream"]
    [] m.m = "sslreq" -> [c EXCEPT !.ph = "tls", !.cur = m.m]
    [] m.m = "tls" -> [c EXCEPT !.ph = "answer", !.cur = m.m]     \* the server goes away: no more is modelled
    [] OTHER -> [c EXCEPT !.ph = "wait", !.cur = m.m]

AfterServer(w, c, m, seq) ==
  IF m \in {"cut", "cuterr", "flip"} \/ c.ph = "free" THEN [c EXCEPT !.ph = "free"]
  ELSE IF m \in Failures THEN [c EXCEPT !.ph = "dead", !.msg = m \in {"err", "row", "col"}]
  ELSE
  CASE m = "greet" -> [c EXCEPT !.ph = IF w.ssl = "off" \/ (w.ssl = "try" /\ w.cap = "no") THEN "proof" ELSE IF w.cap = "yes" THEN "ssl" ELSE "refuse", !.chal = 1, !.plug = w.plugin, !.seq = seq]
    [] m = "switch" -> [c EXCEPT !.ph = "proof", !.chal = 2, !.plug = w.plugin2, !.seq = seq]
    [] m = "fast" -> [c EXCEPT !.ph = "fast", !.seq = seq]
    [] m = "full" -> [c EXCEPT !.ph = "key", !.seq = seq]
    [] m = "key" -> [c EXCEPT !.ph = "rsa", !.seq = seq]
    [] OTHER -> IF c.ph \in {"answer", "fast"} THEN [c EXCEPT !.ph = "cmd", !.cur = "none"]
                ELSE [c EXCEPT !.ph = "cmd", !.ok = @ \cup {c.cur}, !.rec = @ \/ c.cur = "status", !.cur = "none"]

(* ------------------------------ how the call may return ------------------------------ *)
(* res: "stream" or "error"; msg: the error carries the server's message *)
MayReturn(w, c, res, msg) ==
  CASE c.ph = "free" -> res \in {"stream", "error"}
    [] res = "stream" -> c.ph = "stream"
    [] res = "error" -> \/ c.ph = "dead" /\ (c.msg => msg)
                        \/ c.ph \in {"proof", "ssl", "tls"} /\ c.plug \notin Supported
                        \/ c.ph \in {"refuse", "ssl", "tls"}      \* encryption is not supported (yet)
    [] OTHER -> FALSE

(* ------------------------------ the worlds ------------------------------ *)
Flows ==
  {[plugin |-> "other", r1 |-> "ok", plugin2 |-> "none", r2 |-> "ok"]}
  \cup {[plugin |-> p, r1 |-> r, plugin2 |-> "none", r2 |-> "ok"] : p \in {"native"}, r \in {"ok"}}
  \cup {[plugin |-> "sha2", r1 |-> r, plugin2 |-> "none", r2 |-> "ok"] : r \in {"ok", "fast", "full"}}
  \cup {[plugin |-> p, r1 |-> "switch", plugin2 |-> "native", r2 |-> "ok"] : p \in Supported}
  \cup {[plugin |-> p, r1 |-> "switch", plugin2 |-> "sha2", r2 |-> r] : p \in Supported, r \in {"ok", "fast", "full"}}
  \cup {[plugin |-> p, r1 |-> "switch", plugin2 |-> "other", r2 |-> "ok"] : p \in Supported}
(* an empty password never leads to the fast or the full path *)
FlowFits(f, pw) == pw \/ (f.r1 \notin {"fast", "full"} /\ f.r2 \notin {"fast", "full"})
AuthAt(f) == {"none", "greet", "auth"}
  \cup (IF f.r1 = "fast" \/ f.r2 = "fast" THEN {"fast"} ELSE {})
  \cup (IF f.r1 = "full" \/ f.r2 = "full" THEN {"keyreq", "rsa"} ELSE {})
  \cup (IF f.r1 = "switch" /\ f.plugin2 \in Supported THEN {"switch"} ELSE {})
Hows(at) == IF at = "none" THEN {"none"} ELSE IF at \in {"status", "ckget"} THEN {"err", "close", "mid", "row", "col", "junk"} ELSE {"err", "close", "mid"}

World(maria, strat, f, pw, db, at, how) ==
  [maria |-> maria, strat |-> strat, plugin |-> f.plugin, r1 |-> f.r1, plugin2 |-> f.plugin2, r2 |-> f.r2,
   pw |-> pw, db |-> db, at |-> at, how |-> how, ssl |-> "off", cap |-> "any"]

(* every flow of authentication with every fault in it *)
AuthWorlds == UNION { UNION { { World(maria, "start", f, pw, db, at, how) : how \in Hows(at), db \in BOOLEAN, maria \in BOOLEAN } : at \in AuthAt(f) }
                      : <<f, pw>> \in {x \in Flows \X BOOLEAN : FlowFits(x[1], x[2])} }
(* every set-up with every fault in it *)
SetupWorlds == UNION { UNION { { World(maria, strat, f, TRUE, FALSE, at, how) : how \in Hows(at),
                                  f \in {g \in Flows : g.plugin = "native" /\ g.r1 = "ok"} \cup {g \in Flows : g.plugin = "sha2" /\ g.r1 = "fast"} }
                               : at \in {"none"} \cup Required([maria |-> maria, strat |-> strat], FALSE)
                                        \cup (IF maria /\ strat = "gtid" THEN {"strict", "ignoredup"} ELSE {}) }
                       : <<maria, strat>> \in BOOLEAN \X Strats }
(* every SSL mode with every flow of authentication *)
SslWorlds == UNION { UNION { { [World(maria, "start", f, pw, db, at, how) EXCEPT !.ssl = ssl, !.cap = cap] :
                                 how \in Hows(at), db \in {FALSE}, maria \in BOOLEAN, ssl \in {"off", "try", "must"}, cap \in {"yes", "no"} }
                             : at \in {"none", "auth"} }
                     : <<f, pw>> \in {x \in Flows \X BOOLEAN : FlowFits(x[1], x[2])} }
=============================================================================
