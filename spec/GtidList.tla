------------------------------ MODULE GtidList ------------------------------
(* MariaDB GTID lists: at most one GTID per domain, in order of appearance.
   last is what the list denotes (the last GTID of each domain), lst the
   list itself.

   MODE "add"   every reachable list over D domains, S servers, N sequence
                numbers, every addition
        "text"  random texts followed by random additions
   Every transition is written to OUT.  Domains, servers and sequence numbers
   are indices into tables of interesting values.                          *)
EXTENDS Rnd, FiniteSets, SequencesExt, Randomization, Json, CSV, IOUtils

CONSTANTS MODE, D, S, N

VARIABLES last, lst, ops, st, s
vars == <<last, lst, ops, st, s>>
None == <<0, 0>>

Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Pos(q, d) == {i \in DOMAIN q : q[i][1] = d}
AddTo(q, g) == IF Pos(q, g[1]) = {} THEN Append(q, g)
               ELSE [q EXCEPT ![CHOOSE i \in Pos(q, g[1]) : TRUE] = g]

Init == /\ last = [d \in 1..D |-> None] /\ lst = <<>> /\ ops = <<>> /\ st = MODE /\ s = <<1, 1, 1>>

Add(g) == /\ last' = [last EXCEPT ![g[1]] = <<g[2], g[3]>>]
          /\ lst' = AddTo(lst, g)

AddStep == \E d \in 1..D, v \in 1..S, n \in 1..N :
  /\ st = "add"
  /\ Add(<<d, v, n>>)
  /\ Emit([k |-> "add", pre |-> lst, g |-> <<d, v, n>>, new |-> last[d] = None, post |-> lst'])
  /\ UNCHANGED <<ops, st, s>>

Blank == <<"", "", " ", "\n", "\r\n", "  ", "\t", "\n ">>
Seed ==
  /\ st = "text"
  /\ \E x \in RandomSubset(1, 1..30000), y \in RandomSubset(1, 1..30000), z \in RandomSubset(1, 1..30000) : s' = <<x, y, z>>
  /\ st' = "open" /\ UNCHANGED <<last, lst, ops>>
Doms == SubSeq(Shuffle(s, [i \in 1..D |-> i]), 1, Pick(s, 1, <<0, 1, 2, 3, D>>))
Parse ==
  /\ st = "open"
  /\ lst' = LET d == Doms IN TLCEval([i \in DOMAIN d |-> <<d[i], 1 + Rn(Sub(s, i), 1, S), 1 + Rn(Sub(s, i), 2, N)>>])
  /\ last' = [d \in 1..D |-> IF Pos(lst', d) = {} THEN None
                             ELSE LET i == CHOOSE i \in Pos(lst', d) : TRUE IN <<lst'[i][2], lst'[i][3]>>]
  /\ ops' = << [op |-> "parse", post |-> lst',
               w |-> TLCEval([i \in DOMAIN lst' |-> <<Pick(Sub(s, 30 + i), 1, Blank), Pick(Sub(s, 30 + i), 2, Blank)>>])] >>
  /\ st' = "run" /\ UNCHANGED s
Run ==
  /\ st = "run" /\ Len(ops) <= 25
  /\ \E g \in {Sub(s, 100 + Len(ops))} : \E x \in {<<1 + Rn(g, 1, D), 1 + Rn(g, 2, S), 1 + Rn(g, 3, N)>>} :
         /\ Add(x)
         /\ ops' = Append(ops, [op |-> "add", g |-> x, new |-> last[x[1]] = None, post |-> lst'])
  /\ UNCHANGED <<st, s>>
Finish ==
  /\ st = "run" /\ Len(ops) > 25
  /\ Emit([k |-> "script", ops |-> ops])
  /\ st' = "done" /\ UNCHANGED <<last, lst, ops, s>>

(* Texts that are not GTID lists *)
BadTexts == <<
  "1-2", "1", "1-2-3-4", "a-1-1", "1-a-1", "1-1-x", "1-1-", "-1-1", "1--1", "4294967296-1-1", "1-4294967296-1", "1-1-18446744073709551616",
  "hello", "1-1-1 2-2-2", "1-1-1;2-2-2", "1-1-1,hello", "1-1-1,2-2", "1-1-1,1-1-1", "1-1-1,1-2-2", "5-1-1,6-1-1,5-1-2",
  "0-1-1, 0-1-2", "1-1-1,2-2-2,3-3-3,2-4-4", "4294967295-1-1,0-1-1,4294967295-1-2", "1-1-1,\n1-1-2", "0x1-1-1", "1.5-1-1" >>
Bad == /\ st = "bad" /\ st' = "done"
       /\ \A i \in DOMAIN BadTexts : Emit([k |-> "bad", t |-> BadTexts[i]])
       /\ UNCHANGED <<last, lst, ops, s>>

Next == Bad \/ AddStep \/ Seed \/ Parse \/ Run \/ Finish

OnePerDomain == \A i, j \in DOMAIN lst : lst[i][1] = lst[j][1] => i = j
Denotes == /\ \A i \in DOMAIN lst : last[lst[i][1]] = <<lst[i][2], lst[i][3]>>
           /\ \A d \in 1..D : last[d] # None => Pos(lst, d) # {}
=============================================================================
