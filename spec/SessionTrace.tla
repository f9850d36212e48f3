---------------------------- MODULE SessionTrace ----------------------------
(* Sessions recorded from the real client (TRACES: a JSON array), run through
   Session: every message of the client must be one it may send in the state
   the session is in, and every call must return as the session demands.
   A rejected trace is written to OUT.

   A trace: [w world, ss sessions with the same options, one after the other:
             [log messages, res outcome, msg the error carries the server's message]] *)
EXTENDS Session, Json, CSV, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES i, k, j, c, rec0, st
vars == <<i, k, j, c, rec0, st>>

Init == /\ i \in 1..Len(Traces) /\ k = 1 /\ j = 1 /\ c = Fresh(FALSE) /\ rec0 = FALSE /\ st = "run"

W == Traces[i].w
S == Traces[i].ss[k]
E == S.log[j]

Reject(why) == CSVWrite("%1$s", <<ToJson([i |-> i, k |-> k, j |-> j, why |-> why, ph |-> c.ph, cur |-> c.cur,
                                          chal |-> c.chal, plug |-> c.plug, ok |-> SetToSeq(c.ok)])>>, IOEnv.OUT)

Step ==
  /\ st = "run" /\ j <= Len(S.log)
  /\ j' = j + 1 /\ UNCHANGED <<i, k, rec0>>
  /\ IF E.d = "s" THEN c' = AfterServer(W, c, E.m, E.seq) /\ st' = st
     ELSE IF E.d = "c" /\ Allowed(W, rec0, c, E) THEN c' = AfterClient(c, E) /\ st' = st
     ELSE Reject("message") /\ st' = "rejected" /\ c' = c

Close ==
  /\ st = "run" /\ j > Len(S.log)
  /\ IF ~MayReturn(W, c, S.res, S.msg) THEN Reject("return") /\ st' = "rejected" /\ UNCHANGED <<k, j, c, rec0>>
     ELSE IF k = Len(Traces[i].ss) THEN st' = "accepted" /\ UNCHANGED <<k, j, c, rec0>>
     ELSE /\ k' = k + 1 /\ j' = 1 /\ c' = Fresh(c.rec) /\ rec0' = c.rec /\ st' = st
  /\ UNCHANGED i

Next == Step \/ Close
=============================================================================
