------------------------------- MODULE GtidSet -------------------------------
(* MySQL GTID sets: what they denote (sets of transaction numbers per server)
   and how they are represented (sorted, disjoint, non-adjacent intervals).

   Two levels: set is what the text and the additions name; iv is the
   representation, kept up to date interval by interval the way an
   implementation has to.  The invariants relate the two.

   MODE  "add"    every reachable set over 0..N, every addition
         "parse"  every list of at most LEN intervals over 0..N
         "text"   random texts (servers repeated, any case, white space),
                  followed by random additions
         "bad"    texts that are none
   Every transition is written to OUT for execution on the real code.  A
   number is an offset to one of the bases below (TLC has 32 bit integers). *)
EXTENDS Rnd, FiniteSets, SequencesExt, FiniteSetsExt, Randomization, Json, CSV, IOUtils

CONSTANTS MODE, N, SRV, LEN

VARIABLES set, iv, lst, st, s
vars == <<set, iv, lst, st, s>>
Servers == 1..SRV

(* ------------------------------ denotation ------------------------------ *)
Denote(q) == UNION {q[i][1]..q[i][2] : i \in DOMAIN q}
Canonical(q) == \A i \in DOMAIN q : q[i][1] <= q[i][2] /\ (i < Len(q) => q[i][2] + 1 < q[i + 1][1])
(* the one canonical list of a set *)
Runs(S0) == LET S == TLCEval(S0)
                ends == SetToSortSeq({m \in S : (m + 1) \notin S}, <)
                first(e) == Max({m \in S : m <= e /\ (m - 1) \notin S})
            IN  TLCEval([i \in DOMAIN ends |-> <<first(ends[i]), ends[i]>>])

(* ------------------------------ representation ------------------------------ *)
(* one more number: it joins the intervals it touches *)
AddIv(q, n) ==
  LET before == SelectSeq(q, LAMBDA x : x[2] + 1 < n)
      after == SelectSeq(q, LAMBDA x : n + 1 < x[1])
      touch == SelectSeq(q, LAMBDA x : x[2] + 1 >= n /\ n + 1 >= x[1])
      mid == IF touch = <<>> THEN <<n, n>>
             ELSE <<Min({n, touch[1][1]}), Max({n, touch[Len(touch)][2]})>>
  IN  before \o <<mid>> \o after

(* a list in any order: sorted by start, then joined from the left *)
RECURSIVE Collapse(_)
Collapse(q) ==
  IF Len(q) <= 1 THEN q
  ELSE IF q[2][1] <= q[1][2] + 1
       THEN Collapse(<< <<q[1][1], Max({q[1][2], q[2][2]})>> >> \o SubSeq(q, 3, Len(q)))
       ELSE <<q[1]>> \o Collapse(Tail(q))
Normal(q) == Collapse(SortSeq(q, LAMBDA x, y : x[1] < y[1]))

(* ------------------------------ behaviours ------------------------------ *)
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

Init == /\ set = [v \in Servers |-> {}] /\ iv = [v \in Servers |-> <<>>] /\ lst = <<>> /\ s = <<1, 1, 1>>
        /\ st = MODE
        /\ MODE = "add" => Emit([k |-> "parse", list |-> <<>>, post |-> <<>>])

Add(v, n) ==
  /\ set' = [set EXCEPT ![v] = @ \cup {n}]
  /\ iv' = [iv EXCEPT ![v] = AddIv(@, n)]

AddStep == \E v \in Servers, n \in 0..N :
  /\ st = "add"
  /\ Add(v, n)
  /\ Emit([k |-> "add", pre |-> iv, v |-> v, n |-> n, new |-> n \notin set[v], post |-> iv'])
  /\ UNCHANGED <<lst, st, s>>

ParseStep == \E a, b \in 0..N :
  /\ st = "parse" /\ Len(lst) < LEN /\ a <= b
  /\ lst' = Append(lst, <<a, b>>)
  /\ set' = [set EXCEPT ![1] = @ \cup a..b]
  /\ iv' = [iv EXCEPT ![1] = Normal(lst')]
  /\ Emit([k |-> "parse", list |-> lst', post |-> iv'[1]])
  /\ UNCHANGED <<st, s>>

(* ------------------------------ random texts ------------------------------ *)
(* entries: [v server, c letter case, list, w white space before, x after] *)
Blank == <<"", "", " ", "\n", "\r\n", "  ", "\t", "\n ">>
Width(g) == Pick(g, 11, <<0, 0, 1, 2, 5>>)
Span == IF Rn(s, 1, 3) = 0 THEN 400 ELSE IF Rn(s, 2, 2) = 0 THEN 12 ELSE 60
Interval(g) == LET a == Rn(g, 1, Span) IN <<a, a + (IF Rn(g, 2, 3) = 0 THEN 0 ELSE Width(g))>>
Entry(g, n) ==
  [v |-> 1 + Rn(g, 1, SRV), c |-> Pick(g, 2, <<"lower", "lower", "upper", "mixed">>),
   list |-> TLCEval([i \in 1..n |-> Interval(Sub(g, 20 + i))]),
   w |-> Pick(g, 3, Blank), x |-> Pick(g, 4, Blank)]
NIv(g) == IF OneIn(g, 5, 8) THEN 40 + Rn(g, 6, 60) ELSE 1 + Rn(g, 7, 6)
EntriesOf(q) == [i \in 1..Pick(q, 3, <<0, 1, 1, 2, 3, 5>>) |-> Entry(Sub(q, 50 + i), NIv(Sub(q, 50 + i)))]
NAdds == Pick(s, 4, <<10, 30, 80>>)
(* additions: often next to what is there, or between two intervals *)
Pickn(i, sets) ==
  LET g == Sub(s, 200 + i)
      v == 1 + Rn(g, 1, SRV)
      D == sets[v]
      c == Rn(g, 2, 6)
      x == IF D = {} THEN 7 ELSE LET q == Runs(D) IN q[1 + Rn(g, 3, Len(q))]
      n == IF D = {} \/ c = 0 THEN Rn(g, 4, Span)
           ELSE CASE c = 1 -> x[2] + 1 [] c = 2 -> IF x[1] > 0 THEN x[1] - 1 ELSE 0
                  [] c = 3 -> x[2] [] c = 4 -> x[1] [] OTHER -> Rn(g, 4, Span)
  IN  <<v, n>>

Seed ==
  /\ st = "text"
  /\ \E x \in RandomSubset(1, 1..30000), y \in RandomSubset(1, 1..30000), z \in RandomSubset(1, 1..30000) : s' = <<x, y, z>>
  /\ st' = "open" /\ UNCHANGED <<set, iv, lst>>
Parse == \E e \in {EntriesOf(s)} :
  /\ st = "open"
  /\ set' = [v \in Servers |-> UNION {Denote(e[i].list) : i \in {j \in DOMAIN e : e[j].v = v}}]
  /\ iv' = [v \in Servers |-> Normal(FlattenSeq([i \in DOMAIN e |-> IF e[i].v = v THEN e[i].list ELSE <<>>]))]
  /\ lst' = << [op |-> "parse", e |-> e, post |-> iv'] >>
  /\ st' = "run" /\ UNCHANGED s
Run ==
  /\ st = "run" /\ Len(lst) <= NAdds
  /\ \E p \in {Pickn(Len(lst), set)} :
     /\ Add(p[1], p[2])
     /\ lst' = Append(lst, [op |-> "add", v |-> p[1], n |-> p[2], new |-> p[2] \notin set[p[1]], post |-> iv'])
  /\ UNCHANGED <<st, s>>
Finish ==
  /\ st = "run" /\ Len(lst) > NAdds
  /\ Emit([k |-> "script", base |-> Rn(s, 9, 7), uuids |-> Rn(s, 10, 3), ops |-> lst])
  /\ st' = "done" /\ UNCHANGED <<set, iv, lst, s>>


(* Texts that are not GTID sets: "U" stands for a valid UUID, "Uxx" for one with a flaw. *)
BadTexts == <<
  <<"hello">>, <<"1-2-3">>, <<"U", ":x">>, <<"U", ":1x">>, <<"U", ":1-2-3">>, <<"U", ":1-">>, <<"U", ":-5">>, <<"U", ":1-x">>,
  <<"U", ";1-3">>, <<"U", ":1 2">>, <<"U", ":18446744073709551616">>, <<"U", ":1-99999999999999999999">>,
  <<"Ushort", ":1">>, <<"Ulong", ":1">>, <<"Unonhex", ":1">>, <<"Uwide", ":1">>, <<"Uwide2", ":1">>, <<"Uhalf">>,
  <<"U", ":1,hello">>, <<"U", ":1,", "Unonhex", ":1">>, <<"U", ":1,", "U", ":y">>, <<"U", ":1:2:x:3">>, <<"U", ":--">>, <<"U", ":1--2">>,
  <<"U", ":1.5">>, <<"U", ":0x10">> >>
(* Intervals that end before they start name no transaction: such a text is refused, or they count for nothing. *)
Pairs == (0..2) \X (0..2)
RevLists == {q \in UNION {[1..n -> Pairs] : n \in 1..3} : \E i \in DOMAIN q : q[i][1] > q[i][2]}
Forward(q) == SelectSeq(q, LAMBDA x : x[1] <= x[2])
Bad == /\ st = "bad" /\ st' = "done"
       /\ \A i \in DOMAIN BadTexts : Emit([k |-> "bad", t |-> BadTexts[i]])
       /\ \A q \in RevLists : Emit([k |-> "rev", list |-> q, post |-> Normal(Forward(q))])
       /\ UNCHANGED <<set, iv, lst, s>>

Next == AddStep \/ ParseStep \/ Seed \/ Parse \/ Run \/ Finish \/ Bad

(* ------------------------------ properties ------------------------------ *)
Denotes == \A v \in Servers : Denote(iv[v]) = set[v]
IsCanonical == \A v \in Servers : Canonical(iv[v])
Unique == \A v \in Servers : iv[v] = Runs(set[v])
=============================================================================
