-------------------------------- MODULE Start --------------------------------
(* The request that starts the event stream, as a function of the options, of
   the position recorded so far and of the server: Request(w), with its
   bytes.  Random worlds of every class are written to OUT together with the
   request demanded.                                                        *)
EXTENDS Rnd, FiniteSets, SequencesExt, Randomization, Json, CSV, IOUtils

VARIABLES st, s
vars == <<st, s>>

LE(n, k) == [i \in 1..k |-> IF i > 4 THEN 0 ELSE (n \div (256 ^ (i - 1))) % 256]
Zero(k) == [i \in 1..k |-> 0]

(* ------------------------------ worlds ------------------------------ *)
Strats == <<"start", "end", "pos", "gset", "glist">>
Chr(g, n) == TLCEval([i \in 1..n |-> Pick(g, i, <<97, 98, 122, 45, 46, 48, 57, 95, 65>>)])
Length(g) == Pick(g, 901, <<1, 10, 16, 17, 64, 100, 255, 300>>)
Name(g) == IF OneIn(g, 907, 4) THEN RText(g, Length(g)) ELSE Chr(g, Length(g))
Pos4(g) == Pick(g, 902, << <<4, 0, 0, 0>>, <<154, 0, 0, 0>>, <<255, 255, 0, 0>>, <<0, 0, 1, 0>>, <<255, 255, 255, 127>>,
                           <<0, 0, 0, 128>>, <<255, 255, 255, 255>>, RBytes(g, 4) >>)
Sid4(g) == Pick(g, 903, << <<1, 0, 0, 0>>, <<255, 255, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<0, 1, 0, 0>>, RBytes(g, 4) >>)

Hi(g) == Pick(g, 904, << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0>>, <<255, 255, 0, 0, 0, 0>>, <<0, 0, 1, 0, 0, 0>>,
                         <<255, 255, 255, 255, 255, 127>> >>)
Num(g, lo) == LE(lo, 2) \o Hi(g)
(* n intervals, increasing and not adjacent *)
RECURSIVE Ivs(_, _, _, _)
Ivs(g, n, lo, acc) ==
  IF n = 0 \/ lo > 60000 THEN acc
  ELSE LET a == lo + Pick(Sub(g, n), 1, <<0, 1, 5, 254>>)
           b == a + Pick(Sub(g, n), 2, <<0, 0, 1, 3, 255>>)
       IN  Ivs(g, n - 1, b + 2, Append(acc, <<a, b>>))
Uuid(g) == Pick(g, 905, << RBytes(g, 16), RBytes(g, 16), Zero(16), [i \in 1..16 |-> 255], [i \in 1..16 |-> i] >>)
(* a set: distinct servers *)
Part(g, i, big) == [u |-> [Uuid(Sub(g, i)) EXCEPT ![16] = i],
               h |-> Sub(g, 100 + i),
               iv |-> Ivs(Sub(g, 200 + i), IF big THEN 120 ELSE Pick(Sub(g, i), 1, <<1, 1, 2, 3, 7, 40>>), Rn(Sub(g, i), 2, 3), <<>>)]
(* now and then one of more than 65535 bytes *)
GSet(g) == IF OneIn(g, 908, 60) THEN TLCEval([i \in 1..40 |-> Part(g, i, TRUE)])
           ELSE TLCEval([i \in 1..Pick(g, 1, <<0, 1, 1, 2, 3, 8>>) |-> Part(g, i, FALSE)])
Seq8(g) == Pick(g, 906, << <<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, [i \in 1..8 |-> 255], RBytes(g, 8) >>)
GList(g) == TLCEval([i \in 1..(IF OneIn(g, 908, 60) THEN 250 ELSE Pick(g, 1, <<0, 1, 1, 2, 5>>)) |->
                      [d |-> [Sid4(Sub(g, i)) EXCEPT ![2] = i], v |-> Sid4(Sub(g, 20 + i)), n |-> Seq8(Sub(g, 40 + i))]])

World(q) ==
  [strat |-> Pick(q, 1, Strats), maria |-> Rn(q, 2, 2) = 0, blocking |-> Rn(q, 3, 2) = 0, sid |-> Sid4(Sub(q, 4)),
   rec |-> Rn(q, 5, 2) = 0,
   file |-> Name(Sub(q, 6)), pos |-> Pos4(Sub(q, 7)),          \* configured
   rfile |-> Name(Sub(q, 8)), rpos |-> Pos4(Sub(q, 9)),        \* recorded since
   efile |-> Name(Sub(q, 10)), epos |-> Pos4(Sub(q, 11)),      \* the end of the server's log
   gset |-> GSet(Sub(q, 12)), glist |-> GList(Sub(q, 13))]

(* ------------------------------ the request ------------------------------ *)
Four == <<4, 0, 0, 0>>
At(w) == IF w.rec THEN <<w.rfile, w.rpos>>
         ELSE CASE w.strat = "pos" -> <<w.file, w.pos>>
                [] w.strat = "end" -> <<w.efile, w.epos>>
                [] OTHER -> << <<>>, Four>>
Sid(w) == IF w.blocking THEN w.sid ELSE Zero(4)
Wrong(w) == (w.strat = "gset" /\ w.maria) \/ (w.strat = "glist" /\ ~w.maria)
Block(p) == p.u \o LE(Len(p.iv), 8) \o FlattenSeq([i \in DOMAIN p.iv |-> Num(p.h, p.iv[i][1]) \o Num(p.h, p.iv[i][2] + 1)])

(* k: "none" nothing is requested and the call fails; "file" COM_BINLOG_DUMP; "state" the same, the
   place being the connect state; "gtid" COM_BINLOG_DUMP_GTID *)
Request(w) ==
  IF Wrong(w) THEN [k |-> "none"]
  ELSE IF w.strat = "gset"
  THEN [k |-> "gtid", sid |-> Sid(w), file |-> <<>>, pos |-> Four \o Zero(4), blocks |-> [i \in DOMAIN w.gset |-> Block(w.gset[i])]]
  ELSE IF w.strat = "glist"
  THEN [k |-> "state", sid |-> Sid(w), list |-> [i \in DOMAIN w.glist |-> <<w.glist[i].d, w.glist[i].v, w.glist[i].n>>]]
  ELSE [k |-> "file", sid |-> Sid(w), pos |-> At(w)[2], file |-> At(w)[1]]
(* what is recorded when the call has returned *)
Recorded(w) == IF w.strat \in {"gset", "glist"} /\ ~w.rec THEN << <<>>, Four>> ELSE At(w)

(* ------------------------------ generation ------------------------------ *)
Init == st = "seed" /\ s = <<1, 1, 1>>
Seed == /\ st = "seed" /\ st' = "world"
        /\ \E x \in RandomSubset(1, 1..30000), y \in RandomSubset(1, 1..30000), z \in RandomSubset(1, 1..30000) : s' = <<x, y, z>>
Finish == /\ st = "world" /\ st' = "done" /\ UNCHANGED s
          /\ \E w \in {World(s)} :
               CSVWrite("%1$s", <<ToJson([w |-> [w EXCEPT !.gset = [i \in DOMAIN w.gset |->
                   [u |-> w.gset[i].u, iv |-> [j \in DOMAIN w.gset[i].iv |-> <<Num(w.gset[i].h, w.gset[i].iv[j][1]), Num(w.gset[i].h, w.gset[i].iv[j][2])>>]]]],
                 req |-> Request(w), rec |-> Recorded(w)])>>, IOEnv.OUT)
Next == Seed \/ Finish
=============================================================================
