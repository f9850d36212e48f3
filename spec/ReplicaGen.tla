----------------------------- MODULE ReplicaGen -----------------------------
(* Random behaviours of Replica, written out with the bytes a server would
   send: random logs laid out in random files on two servers, starting points
   anywhere in them, and long schedules.  Everything is a function of the
   seed drawn in Seed; the abstract behaviour is Replica's, with its
   invariants checked on the way.                                          *)
EXTENDS Replica, Rnd, Randomization, Json, CSV, IOUtils
W == INSTANCE Wire

CONSTANTS
  STEPS,
  FOCUS      \* "mix"; "switch": interruptions inside transactions and failovers, much auto-commit; "calm": few interruptions

VARIABLES ph, s, k
gvars == <<vars, ph, s, k>>

(* ------------------------------ the random world ------------------------------ *)
Switch == FOCUS = "switch"
Kind(g) == IF Switch /\ Rn(g, 4, 2) = 0 THEN Bodies[4] ELSE Bodies[1 + Rn(g, 1, Len(Bodies))]
NGroups == 3 + Rn(s, 1, 6)
OneSource == Rn(s, 2, 4) = 0 /\ ~Switch

(* MySQL: numbers of a source in any order, without repetition *)
NumsOf(q, n) == SubSeq(Shuffle(q, [i \in 1..24 |-> i]), 1, n)
Pre(src) == {m \in 1..40 : Rn(Sub(s, 60 + src), m, 3) = 0} \cup (IF Rn(s, 63 + src, 2) = 0 THEN {} ELSE 60..70)

RGroups(q, n) ==
  LET src(i) == IF ~Maria /\ OneIn(Sub(q, i), 2, 9) THEN 0 ELSE IF OneSource THEN 1 ELSE 1 + Rn(Sub(q, i), 3, 3)
      raw == TLCEval([i \in 1..n |-> Group(src(i), 0, Kind(Sub(q, i)))])
      num == TLCEval(Number(raw))
      perm == TLCEval([c \in 0..3 |-> NumsOf(Sub(q, 90 + c), n)])
  IN  IF Maria THEN num ELSE TLCEval([i \in 1..n |-> [num[i] EXCEPT !.n = perm[num[i].src][num[i].n]]])

(* the same transactions with those of some sources moved against the others *)
RECURSIVE Merge(_, _, _, _)
Merge(q, i, a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF Rn(q, i, 2) = 0 THEN <<Head(a)>> \o Merge(q, i + 1, Tail(a), b)
       ELSE <<Head(b)>> \o Merge(q, i + 1, a, Tail(b))
Reorder(q, gs) ==
  LET id == [i \in DOMAIN gs |-> i]
      A == {c \in 0..3 : Rn(q, c, 2) = 0}
  IN  Merge(q, 10, SelectSeq(id, LAMBDA i : gs[i].src \in A), SelectSeq(id, LAMBDA i : gs[i].src \notin A))
RCuts(q, n) == {i \in 1..(n - 1) : Rn(q, i, 3) = 0}

Init == /\ ph = "seed" /\ s = <<1, 1, 1>> /\ k = 0
        /\ groups = <<>> /\ servers = <<>> /\ srv = 1 /\ nlog = 0
        /\ opts = [file |-> 0, pos |-> 0, gt |-> {}] /\ tr = FALSE /\ pend = 0 /\ ses = Off
        /\ queue = <<>> /\ comm = {} /\ done = {} /\ saved = [opts |-> opts, comm |-> {}, done |-> {}]
        /\ from = [set |-> FALSE, i |-> 0, gt |-> {}] /\ hist = <<>>

Seed ==
  /\ ph = "seed"
  /\ \E x \in RandomSubset(1, 1..30000), y \in RandomSubset(1, 1..30000), z \in RandomSubset(1, 1..30000) : s' = <<x, y, z>>
  /\ ph' = "world"
  /\ UNCHANGED <<vars, k>>

Setup ==
  /\ ph = "world"
  /\ ph' = "start"
  /\ groups' = RGroups(Sub(s, 11), NGroups)
  /\ servers' = LET n == Len(groups')
                    c1 == RCuts(Sub(s, 12), n)
                IN  << [order |-> [i \in 1..n |-> i], cuts |-> c1, stops |-> {i \in c1 : Rn(s, 400 + i, 4) = 0}],
                       [order |-> Reorder(Sub(s, 13), groups'), cuts |-> RCuts(Sub(s, 14), n), stops |-> {}] >>
  /\ nlog' = IF Switch THEN Len(groups') ELSE Rn(s, 4, Len(groups') + 1)
  /\ UNCHANGED <<srv, opts, tr, pend, ses, queue, comm, done, saved, from, hist, s, k>>

Start0 ==
  /\ ph = "start"
  /\ ph' = "run" /\ k' = 1
  /\ LET n == Len(groups)
         have == {g \in 1..n : groups[g].src # 0 /\ g <= Rn(s, 5, n + 1) /\ Rn(s, 420 + g, 3) # 0}
         gt0 == IF ~Gtid THEN {}
                ELSE IF Maria THEN [c \in Srcs |-> Rn(s, 430 + c, 1 + Cardinality({g \in 1..n : groups[g].src = c}))]
                ELSE have
         i0 == IF STRAT = "pos" THEN Rn(s, 6, nlog + 1) ELSE 0
         at == IF i0 = 0 THEN <<1, Pick(s, 7, <<Start, Start + 2 * Step>>)>>
               ELSE LET lg == LogOf(1, i0) IN <<lg[Len(lg)].f, lg[Len(lg)].np>>
     IN  /\ from' = [set |-> STRAT # "end", i |-> i0, gt |-> gt0]
         /\ opts' = [file |-> IF STRAT = "pos" THEN at[1] ELSE 0,
                     pos |-> IF STRAT = "pos" THEN at[2] ELSE IF STRAT = "end" THEN 0 ELSE Start, gt |-> gt0]
         /\ saved' = [opts |-> opts', comm |-> {}, done |-> {}]
         /\ H([a |-> "init", o |-> opts'])
  /\ UNCHANGED <<groups, servers, srv, nlog, tr, pend, ses, queue, comm, done, s>>

(* ------------------------------ the schedule ------------------------------ *)
CanDeliver == ses.on /\ Len(queue) < MAXLAG /\ ses.at < Len(Stream(srv, nlog, ses))
CanBeat == ses.on /\ ~ses.beat /\ Len(queue) < MAXLAG /\ ses.at > 1 /\ ses.at = Len(Stream(srv, nlog, ses))
CanSave == saved # [opts |-> opts, comm |-> comm, done |-> done] /\ from.set
CanFail == Gtid /\ ~ses.on /\ \E t \in DOMAIN servers : t # srv /\ SameLog(srv, t)
(* eager behaviours commit at once, lazy ones late *)
Lazy == Rn(s, 8, 3)
Choice ==
  LET g == Sub(s, 100 + k)
      c == Rn(g, 1, 100)
      want == CASE FOCUS = "calm" /\ c \in 82..88 /\ Rn(g, 7, 3) # 0 -> "commit"
                [] c < 38 -> "deliver" [] c < 76 -> (IF Lazy = 0 \/ Len(queue) > 3 \/ Rn(g, 2, 3) = 0 THEN "commit" ELSE "deliver")
                [] c < 82 -> "save" [] c < 85 -> "drop" [] c < 87 -> "crash" [] c < 89 -> "failover" [] c < 92 -> "beat" [] OTHER -> "grow"
  IN CASE Switch /\ tr /\ ses.on /\ queue = <<>> /\ Rn(g, 5, 3) = 0 -> "drop"
       [] Switch /\ CanFail /\ hist[Len(hist)].a # "failover" /\ Rn(g, 6, 3) # 0 -> "failover"
       [] want = "deliver" /\ CanDeliver -> "deliver"
       [] want = "commit" /\ queue # <<>> -> "commit"
       [] want = "save" /\ CanSave -> "save"
       [] want = "drop" /\ ses.on -> "drop"
       [] want = "crash" -> "crash"
       [] want = "failover" /\ CanFail -> "failover"
       [] want = "beat" /\ CanBeat -> "beat"
       [] want = "grow" /\ nlog < Len(groups) -> "grow"
       [] ~ses.on /\ queue # <<>> /\ Rn(g, 3, 3) = 0 -> "commit"
       [] ~ses.on -> "connect"
       [] CanDeliver -> "deliver"
       [] queue # <<>> -> "commit"
       [] nlog < Len(groups) -> "grow"
       [] OTHER -> "drop"   \* all is done

Run ==
  /\ ph = "run" /\ k <= STEPS
  /\ k' = k + 1 /\ UNCHANGED <<ph, s>>
  /\ LET c == Choice IN
     CASE c = "deliver" -> Deliver [] c = "commit" -> Commit [] c = "save" -> Save [] c = "drop" -> Drop
       [] c = "crash" -> Crash [] c = "failover" -> Failover [] c = "beat" -> Beat [] c = "grow" -> Grow
       [] c = "connect" -> Connect

(* ------------------------------ bytes ------------------------------ *)
Crc == Rn(s, 20, 2)
FileHi == Pick(s, 21, << <<0, 0>>, <<0, 0>>, <<255, 127>>, <<0, 128>>, <<0, 224>>, <<255, 255>> >>)
FileLo(f) == Pick(s, 30 + f, IF Gtid THEN <<0, 86, 1001, 32000, 65511>> ELSE <<0, 86, 1000, 32000, 60000>>)
(* positions are written modulo 2^32: in a longer file (which only a GTID start can resume) they start over *)
PosB(f, p) == IF p <= Start THEN W!LE(p, 4)
              ELSE LET t == FileLo(f) + p
                   IN  W!LE(t % 65536, 2) \o W!LE((FileHi[1] + 256 * FileHi[2] + (t \div 65536)) % 65536, 2)
Digits6(n) == [i \in 1..6 |-> 48 + ((n \div (10 ^ (6 - i))) % 10)]
FileName(f) == IF f = 0 THEN <<>>
               ELSE IF f < 100 THEN <<109, 121, 115, 113, 108, 45, 98, 105, 110, 46>> \o Digits6(f + Pick(s, 22, <<0, 8, 98, 999980>>))
               ELSE <<98, 46, 108, 46>> \o Digits6(f)
Uuid(c) == <<c * 80>> \o RBytes(Sub(s, 40 + c), 15)
Dom(c) == IF c = 1 THEN Pick(s, 23, << <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 255, 255>> >>) ELSE <<c * 50>> \o RBytes(Sub(s, 43 + c), 3)
Sid(g) == IF Rn(s, 24, 2) = 0 THEN <<1 + groups[g].src, 0, 0, 0>> ELSE <<1 + (g % 2)>> \o RBytes(Sub(s, 50 + (g % 2)), 3)
NumHi(c) == Pick(s, 46 + c, << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0>>, <<255, 255, 0, 0, 0, 0>>,
                               <<255, 255, 255, 255, 255, 127>> >>)
NumLo(c) == Pick(s, 250 + c, <<0, 0, 1, 250, 65300>>)
NumB(c, n) == W!LE(NumLo(c) + n, 2) \o NumHi(c)

(* intervals of a set of numbers *)
Runs(N0) == LET N == TLCEval(N0)
               ends == {m \in N : (m + 1) \notin N}
               first(e) == Max({m \in N : m <= e /\ (m - 1) \notin N})
               es == SetToSortSeq(ends, <)
           IN  [i \in DOMAIN es |-> <<first(es[i]), es[i]>>]
GtB(gt) ==
  IF ~Gtid THEN <<>>
  ELSE IF Maria
  THEN LET listed == SelectSeq(<<1, 2, 3>>, LAMBDA c : gt[c] > 0 \/ Rn(s, 260 + c, 3) = 0)
           sid(c) == IF gt[c] = 0 THEN <<9, 0, 0, 0>>
                     ELSE Sid(CHOOSE g \in DOMAIN groups : groups[g].src = c /\ groups[g].n = gt[c])
       IN  [i \in DOMAIN listed |-> <<Dom(listed[i]), sid(listed[i]), NumB(listed[i], gt[listed[i]] * 2)>>]
  ELSE LET nums0(c) == {groups[g].n : g \in {h \in gt : groups[h].src = c}}
                      \cup (Pre(c) \ {groups[g].n : g \in {h \in DOMAIN groups : groups[h].src = c}})
           nums == TLCEval([c \in 1..3 |-> nums0(c)])
           listed == TLCEval(SelectSeq(<<1, 2, 3>>, LAMBDA c : nums[c] # {}))
       IN  [i \in DOMAIN listed |->
              <<Uuid(listed[i]), LET r == Runs(nums[listed[i]])
                                 IN  [j \in DOMAIN r |-> <<NumB(listed[i], r[j][1]), NumB(listed[i], r[j][2])>>]>>]
OptB(o) == [file |-> FileName(o.file), pos |-> PosB(o.file, o.pos), gt |-> GtB(o.gt)]

T1 == << [k |-> "long"] >>
TabId(id) == IF Rn(s, 25, 2) = 0 THEN <<100 + id, 0, 0, 0, 0, 0>> ELSE <<id>> \o RBytes(Sub(s, 55), 5)
Texts ==
  [begin |-> << "BEGIN" >>,
   query |-> << "INSERT INTO t VALUES (1)", "UPDATE t SET a = 'COMMIT'", "DELETE FROM t", "REPLACE INTO x SELECT 1", "BEGINNING" >>,
   save |-> << "SAVEPOINT `a`", "ROLLBACK TO `a`", "SAVEPOINT commit", "ROLLBACK TO SAVEPOINT b" >>,
   ddl |-> << "CREATE TABLE a (i INT)", "DROP TABLE a /* generated by server */", "alter table t add b int", "CREATE DATABASE BEGIN",
              "TRUNCATE TABLE t", "GRANT ALL ON *.* TO u", "XAVIER", "FLUSH PRIVILEGES" >>,
   ctas |-> << "CREATE TABLE `u` (`i` int) START TRANSACTION" >>,
   commit |-> << "COMMIT" >>,
   rollback |-> << "ROLLBACK" >>,
   xastart |-> << "XA START X'31',X'',1" >>,
   xaend |-> << "XA END X'31',X'',1" >>,
   xacommit |-> << "XA COMMIT X'31',X'',1" >>,
   xarollback |-> << "XA ROLLBACK X'31',X'',1" >>]
Group0(e) == groups[e.g]
(* type and body of an event; a query's text is appended by the harness *)
TB(e, g) ==
  CASE e.k = "fde" -> <<W!T_FDE, W!FdeEv(<<56, 46, 48>>, 40, Crc, g).b, "">>
    [] e.k = "prev" -> IF Maria THEN <<W!T_MLIST, W!LE(0, 4), "">> ELSE <<W!T_PREV, W!LE(0, 8), "">>
    [] e.k = "stop" -> <<W!T_STOP, <<>>, "">>
    [] e.k = "rotate" -> <<W!T_ROTATE, PosB(e.tf, e.tp) \o <<0, 0, 0, 0>> \o FileName(e.tf), "">>
    [] e.k = "hb" -> <<W!T_HB, FileName(e.f), "">>
    [] e.k = "anon" -> <<34, <<0>> \o RBytes(g, 24), "">>
    [] e.k = "gtid" ->
         IF Maria
         THEN <<W!T_MGTID, NumB(Group0(e).src, Group0(e).n * 2) \o Dom(Group0(e).src)
                         \o <<(IF Group0(e).sa THEN 1 ELSE 0) + Pick(g, 1, <<0, 4, 8, 12, 32, 40>>)>> \o <<0, 0, 0, 0, 0, 0>>, "">>
         ELSE <<W!T_GTID, <<Rn(g, 1, 2)>> \o Uuid(Group0(e).src) \o NumB(Group0(e).src, Group0(e).n) \o RBytes(g, 17), "">>
    [] e.k = "xid" -> <<W!T_XID, RBytes(g, 8), "">>
    [] e.k = "ivar" -> IF Rn(g, 1, 3) = 0 THEN <<13, RBytes(g, 16), "">> ELSE <<W!T_INTVAR, <<2>> \o RBytes(g, 8), "">>
    [] e.k = "payload" -> <<40, <<2, 1, 0, 3, 3, 252>> \o RBytes(g, 20), "">>
    [] e.k \in {"queryx", "ddlx"} -> <<165, RBytes(g, 8) \o <<2, 0, 0, 0, 0, 100, 98, 0>> \o RBytes(g, 30), "">>
    [] e.k = "load" -> <<17 + Rn(g, 1, 2), RBytes(g, 24), "">>
    [] e.k = "rowsx" -> <<IF Maria THEN 166 + Rn(g, 1, 6) ELSE 39, TabId(e.id) \o <<IF e.fin THEN 1 ELSE 0, 0>> \o RBytes(g, 30), "">>
    [] e.k = "uvar" -> <<W!T_USERVAR, W!UserVarNull(<<97, 98>>).b, "">>
    [] e.k = "rq" -> IF Maria THEN <<W!T_ANNOTATE, <<66, 69, 71, 73, 78>>, "">> ELSE <<W!T_RQ, <<5, 66, 69, 71, 73, 78>>, "">>
    [] e.k = "xaprep" -> <<38, <<Rn(g, 1, 2)>> \o RBytes(g, 12), "">>
    [] e.k = "tmap" -> <<W!T_TMAP, W!PlainMap(g, TabId(e.id), T1).b, "">>
    [] e.k = "rows" ->
         LET op == Pick(g, 1, <<"write", "update", "delete">>)
             fl == (IF e.fin THEN 1 ELSE 0) + Pick(g, 2, <<0, 0, 2, 4, 8, 14>>)
             r == W!RowsEvent(op, IF Maria THEN 1 ELSE 1 + Rn(g, 3, 2), TabId(e.id), fl, <<>>, T1, <<TRUE>>, <<TRUE>>, <<W!RRow(g, T1)>>)
         IN  <<r.t, r.b, "">>
    [] OTHER -> <<W!T_QUERY, RBytes(g, 8) \o <<2, 0, 0, 0, 0, 100, 98, 0>>, Pick(g, 1, Texts[e.k])>>

Draw(e) == Sub(Sub(s, 300 + e.g), e.j + 40 * e.f)
Framed(e, x) ==
  LET g == Draw(e)
      ck == IF e.k = "fde" THEN 1 ELSE Crc
      sid == IF e.g = 0 THEN <<1, 0, 0, 0>> ELSE Sid(e.g)
  IN  [h |-> W!Header(RBytes(Sub(g, 7), 4), x[1], sid, 19 + Len(x[2]) + Len(x[3]) + 4 * ck,
                    IF e.np = 0 THEN <<0, 0, 0, 0>> ELSE PosB(e.f, e.np),
                    IF e.np = 0 /\ e.k = "rotate" THEN <<32, 0>> ELSE <<0, 0>>),
       b |-> x[2], sql |-> x[3], c |-> ck]
EventB(e) == Framed(e, TB(e, Draw(e)))

SrvAt(i) == LET q == SelectSeq(SubSeq(hist, 1, i), LAMBDA x : x.a = "connect") IN IF q = <<>> THEN 1 ELSE q[Len(q)].srv
StepB(i) ==
  LET x == hist[i] v == SrvAt(i) IN
  CASE x.a = "connect" -> [a |-> "connect", ver |-> v, end |-> <<FileName(x.end[1]), PosB(x.end[1], x.end[2])>>,
                           req |-> OptB(x.req), o |-> OptB(x.o)]
    [] x.a = "event" -> [a |-> "event", e |-> EventB(x.e), k |-> x.e.k]
    [] x.a \in {"commit", "init"} -> [a |-> x.a, o |-> OptB(x.o)]
    [] x.a = "drop" -> [a |-> "drop", end |-> x.end]
    [] OTHER -> [a |-> x.a]

Finish ==
  /\ ph = "run" /\ k > STEPS
  /\ CSVWrite("%1$s", <<ToJson([maria |-> Maria, strat |-> STRAT, crc |-> Crc,
        steps |-> [i \in DOMAIN hist |-> StepB(i)]])>>, IOEnv.OUT)
  /\ ph' = "done" /\ UNCHANGED <<vars, s, k>>

Running == ph \in {"run", "done"}
GtidExactG == Running => GtidExact
NoLossG == Running => NoLoss
DecodableG == Running => Decodable
InOrderG == Running => InOrder
NoRepeatG == Running => NoRepeat
RealPlaceG == Running => RealPlace

GNext == Seed \/ Setup \/ Start0 \/ Run \/ Finish
=============================================================================
