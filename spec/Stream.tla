------------------------------- MODULE Stream -------------------------------
(* The event stream of one connection: the packets a server sends, the bytes
   as the network carries them, and the items the client's iterator yields.

   A packet consists of parts; the network may deliver any number of parts at
   a time, and the connection may be lost after any of them.  The client may
   tire of waiting (a read times out) and yield an error that says so; it may
   then go on.  Where that happens inside a packet, the client either resumes
   the packet or gives the connection up: what it yields afterwards is never
   anything but what was sent.

   State
     sent    kinds of the packets the server has sent
     arr     parts that have arrived at the client
     lost    the connection is gone, nothing more will arrive
     got     parts the client has read from the socket
     yld     parts that belong to the items yielded so far
     items   what the iterator has yielded; "late" where it tired of waiting
     torn    the client tired inside a packet and gives the connection up
     st      "run"; "over" after the end or the loss of the stream
     chunks  (kept only if HIST) sizes of the deliveries               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS MAXP,    \* packets at most
          KINDS,   \* kinds of packets
          TIMES,   \* how often the client may tire of waiting
          V,       \* flaws of the client, to show that the properties notice them; {} = none
          HIST

VARIABLES sent, arr, lost, got, yld, items, torn, st, chunks
vars == <<sent, arr, lost, got, yld, items, torn, st, chunks>>

(* parts of a packet: its length, its number, then the payload *)
Parts(k) == CASE k = "empty" -> 2            \* length, number
              [] k \in {"eof", "odd"} -> 3   \* length, number, payload
              [] k = "huge" -> 8             \* a payload of 16 MB or more: continued with a second length and number
              [] OTHER -> 5                  \* length, number, status, head, body
Item(k) == CASE k \in {"event", "hb", "huge"} -> "event"   \* as sent
             [] k = "unknown" -> "unknown"                 \* an unknown event with the header as sent
             [] k \in {"bad", "odd", "empty"} -> "error"
             [] k = "refusal" -> "refusal"                 \* an error with the server's code, state and message
             [] k = "cut" -> "any"                         \* an error, or an event if what is left forms one
             [] k = "eof" -> "end"

RECURSIVE Sum(_, _)
Sum(q, n) == IF n = 0 THEN 0 ELSE Parts(q[n]) + Sum(q, n - 1)
Total == Sum(sent, Len(sent))

Init == /\ sent = <<>> /\ arr = 0 /\ lost = FALSE /\ got = 0 /\ yld = 0 /\ items = <<>> /\ torn = FALSE /\ st = "run" /\ chunks = <<>>

Closing == Len(sent) > 0 /\ sent[Len(sent)] = "eof"
Send(k) == /\ ~lost /\ ~Closing /\ Len(sent) < MAXP
           /\ sent' = Append(sent, k) /\ UNCHANGED <<arr, lost, got, yld, items, torn, st, chunks>>
Arrive(n) == /\ ~lost /\ arr + n <= Total
             /\ arr' = arr + n /\ chunks' = IF HIST THEN Append(chunks, n) ELSE chunks
             /\ UNCHANGED <<sent, lost, got, yld, items, torn, st>>
Lose == /\ ~lost /\ st = "run" /\ lost' = TRUE /\ UNCHANGED <<sent, arr, got, yld, items, torn, st, chunks>>

(* ---- the client ---- *)
Next1 == Cardinality({i \in 1..Len(sent) : Sum(sent, i) <= yld}) + 1
Whole(n) == Next1 <= Len(sent) /\ n >= Sum(sent, Next1)
Yield(x) == items' = Append(items, x) /\ st' = (IF x \in {"end", "lost"} THEN "over" ELSE st)
(* the client begins where a packet begins *)
Fresh == yld = 0 \/ \E i \in 1..Len(sent) : yld = Sum(sent, i)
(* it reads what has arrived, part by part, until the packet is complete *)
Read == /\ st = "run" /\ ~torn /\ got < arr /\ ~Whole(got)
        /\ got' = got + 1
        /\ UNCHANGED <<sent, arr, lost, yld, items, torn, st, chunks>>
Take == /\ st = "run" /\ ~torn
        /\ \/ Whole(got)
           \/ "short" \in V /\ got >= yld + 3 /\ Next1 <= Len(sent)
        /\ Yield(IF Fresh THEN Item(sent[Next1]) ELSE "phantom")
        /\ yld' = IF "gulp" \in V THEN arr ELSE Sum(sent, Next1)     \* "gulp": what came along is forgotten
        /\ got' = IF yld' > got THEN yld' ELSE got
        /\ UNCHANGED <<sent, arr, lost, torn, chunks>>
Miss == /\ st = "run" /\ lost /\ got = arr /\ ~Whole(got)
        /\ Yield(IF "polite" \in V /\ got = yld THEN "end" ELSE "lost")
        /\ UNCHANGED <<sent, arr, lost, got, yld, torn, chunks>>
(* nothing comes for too long *)
Waiting == st = "run" /\ ~torn /\ ~lost /\ got = arr /\ ~Whole(got)
Tire == /\ Waiting /\ Cardinality({i \in 1..Len(items) : items[i] = "late"}) < TIMES
        /\ items' = Append(items, "late")
        /\ torn' \in (IF got > yld THEN {TRUE, FALSE} ELSE {FALSE})
        /\ yld' = IF "forget" \in V THEN got ELSE yld         \* "forget": begins a packet with whatever comes next
        /\ UNCHANGED <<sent, arr, lost, got, st, chunks>>
GiveUp == /\ st = "run" /\ torn /\ Yield("lost") /\ UNCHANGED <<sent, arr, lost, got, yld, torn, chunks>>

Client == Read \/ Take \/ Miss \/ GiveUp
Next == (\E k \in KINDS : Send(k)) \/ (\E n \in 1..8 : Arrive(n)) \/ Lose \/ Client \/ Tire
Spec == Init /\ [][Next]_vars /\ WF_vars(Client) /\ WF_vars(\E n \in 1..8 : Arrive(n))

(* ---- guarantees ---- *)
(* the items are those of the packets sent, in order, once each; only a stream that ended or was lost adds one *)
Complete(n) == n <= Len(sent) /\ arr >= Sum(sent, n)
Told == SelectSeq(items, LAMBDA x : x # "late")
Exact == /\ \A i \in 1..Len(Told) :
              \/ Complete(i) /\ Told[i] = Item(sent[i])
              \/ i = Len(Told) /\ Told[i] = "lost" /\ (torn \/ (lost /\ ~Complete(i)))
(* an end is the server's, a loss is a loss, and the client tires only of waiting *)
Honest == /\ (\E i \in 1..Len(items) : items[i] = "end") => Closing
          /\ (\E i \in 1..Len(items) : items[i] = "lost") => lost \/ torn
Torn == torn => \E i \in 1..Len(items) : items[i] = "late"
(* every packet that arrives is yielded *)
Every == \A n \in 1..MAXP : Complete(n) ~> (Len(Told) >= n \/ torn)
(* and a loss is noticed *)
Noticed == lost \/ torn ~> st = "over"
=============================================================================
