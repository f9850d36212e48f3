-------------------------------- MODULE Life --------------------------------
(* The connections of a program that uses several clients and several event
   streams at once: which exist, to whom they lead, how long they last, and
   whose events a stream yields.

   State
     users   the clients the program still holds
     calls   how many times it has called replicate()
     conns   the connections in the order they were opened:
             [c    client that opened it
              to   server it leads to
              held the program holds the stream returned for it
              sock "open", "closed": the client's end of it
              sent, read   events sent by the server, events yielded
              down "no", "eof" (end of the log), "shut" (server gone)
              told the end or the loss has been yielded]
     items   what the streams have yielded: <<connection, event>>, in order
     log     (kept only if KEEP) the steps, for replay                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS CLIENTS,  \* clients
          HOME,     \* the server each client is configured for
          MAXC,     \* calls of replicate() at most
          MAXE,     \* events of a connection at most
          STEPS,    \* length of the behaviours written out
          KEEP, SMALL, V

VARIABLES users, calls, conns, items, log
vars == <<users, calls, conns, items, log>>

Home == [c \in CLIENTS |-> IF c = "b" THEN "two" ELSE "one"]
Init == users = CLIENTS /\ calls = 0 /\ conns = <<>> /\ items = <<>> /\ log = <<>>

Conn(c) == [c |-> c, to |-> IF "astray" \in V THEN HOME[CHOOSE x \in CLIENTS : TRUE] ELSE HOME[c], held |-> TRUE, sock |-> "open",
            sent |-> 0, read |-> 0, down |-> "no", told |-> FALSE]
Closed(x) == [x EXCEPT !.held = FALSE, !.sock = "closed"]
Note(step, q) == log' = IF KEEP THEN Append(log, [step EXCEPT !.socks = [i \in 1..Len(q) |-> IF q[i].held /\ q[i].told THEN "any" ELSE q[i].sock]])
                        ELSE log
Step(op, c, s, how) == [op |-> op, c |-> c, s |-> s, how |-> how, socks |-> <<>>]

(* the program calls replicate(); the server answers until the stream begins, *)
Open(c) == /\ c \in users /\ calls < MAXC /\ calls' = calls + 1
           /\ LET old == [i \in 1..Len(conns) |-> IF "single" \in V /\ conns[i].c = c THEN [conns[i] EXCEPT !.sock = "closed"] ELSE conns[i]]
              IN  conns' = Append(old, Conn(c)) /\ Note(Step("open", c, 0, "ok"), conns')
           /\ UNCHANGED <<users, items>>
(* or refuses, or goes away, on the way there *)
Fail(c, how) == /\ c \in users /\ calls < MAXC /\ calls' = calls + 1
                /\ LET x == IF "leak" \in V THEN [Conn(c) EXCEPT !.held = FALSE] ELSE Closed(Conn(c))
                   IN  conns' = (IF "again" \in V THEN conns \o <<x, x>> ELSE Append(conns, x)) /\ Note(Step("open", c, 0, how), conns')
                /\ UNCHANGED <<users, items>>
(* it drops the client *)
Quit(c) == /\ c \in users /\ users' = users \ {c}
           /\ conns' = [i \in 1..Len(conns) |-> IF "owner" \in V /\ conns[i].c = c THEN [conns[i] EXCEPT !.sock = "closed"] ELSE conns[i]]
           /\ Note(Step("quit", c, 0, ""), conns') /\ UNCHANGED <<calls, items>>
(* it drops a stream *)
Drop(i) == /\ conns[i].held
           /\ conns' = [conns EXCEPT ![i] = IF "linger" \in V THEN [@ EXCEPT !.held = FALSE] ELSE Closed(@)]
           /\ Note(Step("drop", conns[i].c, i, ""), conns') /\ UNCHANGED <<users, calls, items>>
(* the server sends an event, or ends the stream *)
Push(i) == /\ conns[i].held /\ conns[i].down = "no" /\ conns[i].sent < MAXE
           /\ conns' = [conns EXCEPT ![i].sent = @ + 1] /\ Note(Step("push", conns[i].c, i, ""), conns') /\ UNCHANGED <<users, calls, items>>
End(i, how) == /\ conns[i].held /\ conns[i].down = "no"
               /\ conns' = [conns EXCEPT ![i].down = how] /\ Note(Step("end", conns[i].c, i, how), conns') /\ UNCHANGED <<users, calls, items>>
(* the program asks a stream for its next item *)
Take(i) == /\ conns[i].held /\ conns[i].read < conns[i].sent
           /\ LET j == IF "mixed" \in V THEN CHOOSE j \in 1..Len(conns) : conns[j].read < conns[j].sent ELSE i
              IN  /\ conns' = [conns EXCEPT ![j].read = @ + 1]
                  /\ items' = Append(items, <<i, j, conns[j].read + 1>>)
           /\ Note(Step("take", conns[i].c, i, "event"), conns') /\ UNCHANGED <<users, calls>>
Over(i) == /\ conns[i].held /\ conns[i].read = conns[i].sent /\ conns[i].down # "no" /\ ~conns[i].told
           /\ conns' = [conns EXCEPT ![i].told = TRUE]
           /\ Note(Step("take", conns[i].c, i, conns[i].down), conns') /\ UNCHANGED <<users, calls, items>>

Hows == {"deny", "hang"}
Ops == \/ \E c \in CLIENTS : Open(c) \/ Quit(c) \/ \E h \in Hows : Fail(c, h)
       \/ \E i \in 1..Len(conns) : Drop(i) \/ Push(i) \/ Take(i) \/ Over(i) \/ \E h \in {"eof", "shut"} : End(i, h)
Next == Ops
Spec == Init /\ [][Next]_vars

(* ---- guarantees ---- *)
OneEach == Len(conns) = calls /\ \A i \in 1..Len(conns) : conns[i].to = HOME[conns[i].c]
Kept == \A i \in 1..Len(conns) : conns[i].held => conns[i].sock = "open"
Freed == \A i \in 1..Len(conns) : ~conns[i].held => conns[i].sock = "closed"
Own == \A n \in 1..Len(items) : items[n][1] = items[n][2]
       /\ items[n][3] = Cardinality({m \in 1..n : items[m][1] = items[n][1]})

(* ---- behaviours to be replayed ---- *)
(* random ones: rather often a step of a stream, seldom the end of a client *)
Few == \/ \E i \in 1..Len(conns) : Push(i) \/ Take(i) \/ Take(i) \/ Over(i)
       \/ \E c \in CLIENTS : RandomElement(1..2) = 1 /\ (Open(c) \/ (RandomElement(1..3) = 1 /\ \E h \in Hows : Fail(c, h)))
       \/ \E c \in CLIENTS : RandomElement(1..8) = 1 /\ Quit(c)
       \/ \E i \in 1..Len(conns) : RandomElement(1..3) = 1 /\ (Drop(i) \/ \E h \in {"eof", "shut"} : End(i, h))
GNext == /\ Len(log) < STEPS
         /\ IF SMALL THEN Ops ELSE Few
         /\ IF Len(log') = STEPS THEN CSVWrite("%1$s", <<ToJson(log')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
