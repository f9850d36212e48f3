----------------------------- MODULE StreamGen -----------------------------
(* Behaviours of Stream to be replayed: the server sends all its packets, the
   network delivers them piece by piece and the client reads whatever has
   arrived before the next piece comes.                                    *)
EXTENDS Stream, Json, CSV, IOUtils, Randomization
CONSTANTS MINP, SMALL     \* SMALL: pieces up to the whole rest; else random ones

VARIABLE ph
gvars == <<vars, ph>>

GInit == Init /\ ph = "send"
Busy == ENABLED Client
Fill == /\ ph = "send" /\ UNCHANGED ph
        /\ IF SMALL THEN \E k \in KINDS : Send(k)
           ELSE \E k \in RandomSubset(1, KINDS) : Send(IF Len(sent) = MAXP - 1 THEN "eof" ELSE k)
Go == /\ ph = "send" /\ Len(sent) >= MINP /\ (SMALL \/ Len(sent) = MAXP \/ Closing)
      /\ ph' = "go" /\ UNCHANGED vars
Rest == Total - arr
Piece == /\ ph = "go" /\ ~Busy /\ st = "run" /\ Rest > 0 /\ UNCHANGED ph
         /\ IF SMALL THEN \E n \in 1..Rest : Arrive(n)
            ELSE \E a \in RandomSubset(1, 1..4), b \in RandomSubset(1, 1..12) :
                   LET m == CASE a = 1 -> 1 [] a = 2 -> 3 [] a = 3 -> b [] OTHER -> 5 * b
                   IN  Arrive(IF m > Rest THEN Rest ELSE m)
Drop == /\ ph = "go" /\ ~Busy /\ UNCHANGED ph
        /\ IF SMALL THEN ~lost ELSE (Rest = 0 \/ RandomElement(1..20) = 1)
        /\ Lose
(* a piece of no parts: a pause in which the client tires *)
Pause == /\ ph = "go" /\ ~Busy /\ st = "run" /\ Rest > 0 /\ UNCHANGED ph
         /\ IF SMALL THEN TRUE ELSE RandomElement(1..4) = 1
         /\ Waiting /\ Cardinality({i \in 1..Len(items) : items[i] = "late"}) < TIMES
         /\ items' = Append(items, "late") /\ chunks' = Append(chunks, 0)
         /\ UNCHANGED <<sent, arr, lost, got, yld, torn, st>>
Run == ph = "go" /\ Client /\ UNCHANGED ph
Finish == /\ ph = "go" /\ st = "over" /\ ph' = "done" /\ UNCHANGED vars
          /\ CSVWrite("%1$s", <<ToJson([sent |-> sent, chunks |-> chunks, lost |-> lost, items |-> items])>>, IOEnv.OUT)
GNext == Fill \/ Go \/ Piece \/ Pause \/ Drop \/ Run \/ Finish
=============================================================================
