------------------------------- MODULE Reader -------------------------------
(* Reading a binlog file that may end anywhere (the server crashed while
   writing it).

   State
     sig    the first four bytes: "good", "wrong", or "short" (the file ends before)
     file   the events written: [k kind, z size class of the body]
     have   parts of the events the file really contains (it is cut after them)
     at     parts read
     items  what the reader has yielded; st: "new" "open" "rejected" "ended"
   An event consists of four parts: the beginning and the rest of the header,
   the beginning and the rest of the body (nothing, if the body is empty).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, CSV, IOUtils

CONSTANTS MAXE, KINDS, SIZES, V

VARIABLES sig, file, have, at, items, st
vars == <<sig, file, have, at, items, st>>

Parts(e) == IF e.z = "none" THEN 2 ELSE 4
RECURSIVE Sum(_, _)
Sum(q, n) == IF n = 0 THEN 0 ELSE Parts(q[n]) + Sum(q, n - 1)
Item(e) == CASE e.k = "event" -> "event" [] e.k = "unknown" -> "unknown" [] e.k = "bad" -> "error" [] e.k = "cut" -> "any"

(* only unknown and undecodable events may have an empty body *)
Event == {[k |-> k, z |-> z] : k \in KINDS, z \in SIZES} \ {[k |-> k, z |-> "none"] : k \in {"event", "cut"}}
Init == /\ sig \in {"good", "wrong", "short"}
        /\ file \in (IF sig = "good" THEN SeqOf(Event, MAXE) ELSE SeqOf({[k |-> "event", z |-> "small"]}, 1))
        /\ have \in (IF sig = "good" THEN 0..Sum(file, Len(file)) ELSE {IF sig = "wrong" THEN Sum(file, Len(file)) ELSE 0})
        /\ at = 0 /\ items = <<>> /\ st = "new"

Open == /\ st = "new" /\ st' = (IF sig = "good" THEN "open" ELSE "rejected")
        /\ UNCHANGED <<sig, file, have, at, items>>
I == Len(items) + 1
Whole(i) == i <= Len(file) /\ have >= Sum(file, i)
Yield == /\ st = "open" /\ Whole(I) /\ ~("quiet" \in V /\ file[I].k = "bad")
         /\ items' = Append(items, Item(file[I])) /\ at' = Sum(file, I)
         /\ UNCHANGED <<sig, file, have, st>>
(* an incomplete event at the end is no event *)
Stop == /\ st = "open" /\ (IF Whole(I) THEN "quiet" \in V /\ file[I].k = "bad" ELSE TRUE)
        /\ st' = "ended"
        /\ items' = IF "loud" \in V /\ have > at THEN Append(items, "error") ELSE items
        /\ UNCHANGED <<sig, file, have, at>>
Emit == /\ st \in {"ended", "rejected"}
        /\ CSVWrite("%1$s", <<ToJson([sig |-> sig, file |-> file, have |-> have, items |-> items, open |-> st # "rejected"])>>, IOEnv.OUT)
        /\ st' = "told" /\ UNCHANGED <<sig, file, have, at, items>>
Next == Open \/ Yield \/ Stop \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- guarantees ---- *)
Complete == {i \in 1..Len(file) : have >= Sum(file, i)}
Prefix == \A i \in 1..Len(items) : i \in Complete /\ items[i] = Item(file[i])
Everything == st \in {"ended", "told"} /\ sig = "good" => Len(items) = Cardinality(Complete)
Signature == sig # "good" => st # "open" /\ items = <<>>
Ends == <>(st = "told")
=============================================================================
