------------------------------ MODULE SessionMC ------------------------------
(* Session with a client that sends anything it may and a server that follows
   its policy: the guarantees follow from Allowed and AfterServer.         *)
EXTENDS Session, Json, CSV, IOUtils

CONSTANTS WHICH,     \* "auth", "setup" or "ssl"
          V          \* faults of the client to show that the properties notice them; {} = none

VARIABLES w, c, h, res, tries
vars == <<w, c, h, res, tries>>

(* h: what an observer of the wire keeps, independently of c:
     sent     the requests sent
     open     a message of the client is unanswered
     twice    another one was sent meanwhile
     failed   the server refused something or went away
     after    something was sent after that
     accepted the server has said "ok" to a proof
     soon     a command was sent before
     chal     number of challenges so far
     bad      a proof for another challenge, or the password itself, was sent
     open1    credentials were sent although encryption is required, or after it was asked for *)
H0 == [sent |-> {}, open |-> FALSE, twice |-> FALSE, failed |-> FALSE, after |-> FALSE, accepted |-> FALSE, soon |-> FALSE, chal |-> 0, bad |-> FALSE, open1 |-> FALSE]
AuthKinds == {"auth", "switch", "keyreq", "rsa"}
HClient(m, p) ==
  [h EXCEPT !.sent = @ \cup {m}, !.open = m # "sslreq", !.twice = @ \/ h.open, !.after = @ \/ h.failed,
            !.soon = @ \/ (m \notin AuthKinds \cup {"sslreq", "tls"} /\ ~h.accepted),
            !.open1 = @ \/ (m \in AuthKinds \cup {"dump"} /\ (w.ssl = "must" \/ "sslreq" \in h.sent)),
            !.bad = @ \/ p.p = "clear" \/ (m \in {"auth", "switch", "rsa"} /\ (IF w.pw THEN p.n # h.chal ELSE p.p # "empty"))]
HServer(m) ==
  [h EXCEPT !.open = FALSE, !.failed = @ \/ m \in Failures, !.accepted = @ \/ m = "ok",
            !.chal = IF m \in {"greet", "switch"} THEN @ + 1 ELSE @]

Worlds == CASE WHICH = "auth" -> AuthWorlds [] WHICH = "setup" -> SetupWorlds [] WHICH = "ssl" -> SslWorlds
Init == /\ w \in Worlds
        /\ CSVWrite("%1$s", <<ToJson(w)>>, IOEnv.OUT)
        /\ c = Fresh(FALSE) /\ h = H0 /\ res = "none" /\ tries = 1

Msg(m, p, q) == [m |-> m, proof |-> p, seq |-> q, plugin |-> c.plug, who |-> TRUE, fit |-> TRUE]
Nothing == [p |-> "none", n |-> 0]
Proofs == {Nothing, [p |-> "empty", n |-> 0]} \cup [p : {"native", "sha2", "rsa", "clear"}, n : 1..2]
Kinds == AuthKinds \cup {"dump", "sslreq", "tls"} \cup Required(w, FALSE)

(* client designs that break a guarantee *)
Seen == IF "hasty" \in V /\ c.ph = "wait" /\ c.cur = "hb" THEN [c EXCEPT !.ph = "cmd"]
        ELSE IF "stale" \in V /\ c.ph = "proof" /\ c.chal = 2 THEN [c EXCEPT !.chal = 1]
        ELSE IF "naive" \in V /\ c.ph \in {"ssl", "refuse"} /\ w.ssl = "must" THEN [c EXCEPT !.ph = "proof"] ELSE c
Client == \E m \in Kinds, q \in {0, c.seq, c.seq + 1} : \E p \in (IF m \in {"auth", "switch", "rsa"} THEN Proofs ELSE {Nothing}) :
  /\ res = "none"
  /\ LET x == Msg(m, p, q) IN
     /\ Allowed(w, tries > 1 /\ c.rec, Seen, IF "stale" \in V /\ c.chal = 2 /\ m = "switch" THEN [x EXCEPT !.m = "auth"] ELSE x)
     /\ m \in c.ok => FALSE      \* once each
     /\ c' = AfterClient(c, x)
     /\ h' = HClient(m, p)
  /\ UNCHANGED <<w, res, tries>>

Server == \E r \in Replies(w, c) \cup (IF c.cur = "tls" /\ c.ph = "answer" THEN {"close"} ELSE {}) :
  /\ res = "none"
  /\ LET how == IF Exchange(c) = w.at /\ tries = 1 THEN w.how ELSE r
         heard == IF "deaf" \in V /\ how = "err" /\ c.cur = "ckset" THEN "ok" ELSE how
     IN /\ c' = AfterServer(w, c, heard, IF c.ph = "greet" THEN 0 ELSE c.seq + 2)
        /\ h' = HServer(how)
  /\ UNCHANGED <<w, res, tries>>

Return == \E r \in {"stream", "error"} :
  /\ res = "none" /\ MayReturn(w, c, r, TRUE)
  /\ res' = r /\ UNCHANGED <<w, c, h, tries>>
(* the same options are used once more *)
Again == /\ res = "error" /\ tries = 1 /\ w.at # "none"
         /\ tries' = 2 /\ res' = "none" /\ h' = H0 /\ c' = Fresh(c.rec) /\ UNCHANGED w
Next == Client \/ Server \/ Return \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ guarantees ------------------------------ *)
Stops == ~h.after
Lockstep == ~h.twice
All == "dump" \in h.sent => Required(w, tries > 1 /\ c.rec) \subseteq h.sent \cup (IF c.rec THEN {"status"} ELSE {}) /\ ~h.failed
Accepted == ~h.soon
Proves == ~h.bad
Sealed == ~h.open1
Outcome == res = "stream" => ~h.failed /\ "dump" \in h.sent
Ends == <>[](res # "none")
=============================================================================
