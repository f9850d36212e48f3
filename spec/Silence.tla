------------------------------- MODULE Silence -------------------------------
(* Time: a server that falls silent, and one that is merely slow.

   The unit of time is one second.  The client of the world waits for the
   server at a stage of the session (the exchanges of Session, or the event
   stream); what it waits for consists of PIECES pieces.

   State
     w      world: [at stage, hb configured heartbeat interval, gap: pause
            before each piece (Never: the server stays silent from there),
            from: the piece before which the pauses begin]
     now, last   the time, and when the client last received something
     got    pieces received
     st     "wait", "served" (all pieces came), "lost" (an error was returned) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS STAGES, HBS, PIECES, V

VARIABLES w, now, last, got, st
vars == <<w, now, last, got, st>>

Latency == 10                  \* seconds of grace beyond the heartbeat interval
Never == 1000
Limit(hb) == hb + Latency
Horizon == 60

Worlds == [at : STAGES, hb : HBS, gap : {"never", "long", "short"}, from : 1..PIECES]
Gap(x) == CASE x.gap = "never" -> Never
            [] x.gap = "long" -> Limit(x.hb) - 3       \* silent for most of the time allowed, each time anew
            [] x.gap = "short" -> 1
Init == /\ w \in {x \in Worlds : x.gap # "short" \/ x.from = 1}
        /\ now = 0 /\ last = 0 /\ got = 0 /\ st = "wait"

(* when the next piece comes *)
Due == IF got + 1 < w.from THEN last ELSE last + Gap(w)
Patience == CASE "deaf" \in V -> Never
              [] "hasty" \in V -> w.hb + 1
              [] OTHER -> Limit(w.hb)
Since == IF "total" \in V THEN 0 ELSE last     \* "total": one deadline for everything
Arrive == /\ st = "wait" /\ now = Due
          /\ got' = got + 1 /\ last' = now
          /\ st' = IF got' = PIECES THEN "served" ELSE "wait"
          /\ UNCHANGED <<w, now>>
GiveUp == /\ st = "wait" /\ now < Due /\ now - Since >= Patience
          /\ st' = "lost" /\ UNCHANGED <<w, now, last, got>>
Tick == /\ st = "wait" /\ now < Due /\ now - Since < Patience /\ now < Horizon
        /\ now' = now + 1 /\ UNCHANGED <<w, last, got, st>>
Done == /\ st \in {"served", "lost"} /\ st' = "told"
        /\ CSVWrite("%1$s", <<ToJson([w |-> w, gap |-> Gap(w), res |-> st, took |-> now, silent |-> now - last])>>, IOEnv.OUT)
        /\ UNCHANGED <<w, now, last, got>>
Next == Arrive \/ GiveUp \/ Tick \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Detected == st = "wait" => now - last <= Limit(w.hb)
OnlySilent == st = "lost" => now - last >= Limit(w.hb)
Patient == st = "lost" => w.gap = "never"
Ends == <>(st = "told")
=============================================================================
