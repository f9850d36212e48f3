----------------------------- MODULE MirrorGen -----------------------------
(* What the crate is for: a program that keeps a copy of the tables of a
   database from the events of its log, and never has to start over.

   The servers, the log, the client and the schedule are those of Replica and
   ReplicaGen; the transactions here have contents: statements that insert,
   update and delete rows of tables with random columns, full and minimal
   row images, several tables in one statement, several row events in one
   statement, tables emptied and redefined, table ids handed from one table
   to another.  The tables a transaction touches are those of its source, so
   that transactions of different sources may be logged in any order.

   The program:
     holds back the rows of a statement (file and position) or transaction
     (GTID) until it is complete, then applies them to its copy;
     stores its copy together with the recorded position;
     forgets what it holds back when it connects again;
     after a crash goes on with the copy and the position it stored.

   State, beyond that of ReplicaGen
     db     [con: contents of the events of each transaction, snap: tables of
            its source after each transaction]
     copy, held, kept   the program's copy, what it holds back, what it stored
     last   the transaction whose last event has just been committed, or 0
            (-1: a transaction applied before, with GTIDs)
     did    [now, kept: transactions in the copies]

   Guarantee: whenever the program has processed a transaction, its copy of
   the tables of that transaction's source equals the source's as of then;
   with GTIDs, no transaction is applied twice. *)
EXTENDS ReplicaGen
VARIABLES db, copy, held, kept, last, did
mvars == <<gvars, db, copy, held, kept, last, did>>

K == 6                         \* keys of a table
Tabs == 0..7                   \* tables; two of each source
Of(c) == {2 * c, 2 * c + 1}
NoRows == [i \in 1..K |-> <<>>]

(* ------------------------------ contents ------------------------------ *)
MKinds == <<"tiny", "short", "int24", "long", "longlong", "float", "double", "dec", "varchar", "char", "bit", "enum", "set", "date", "time", "year",
            "dt", "ts", "time2", "ts2", "dt2", "varchar", "long">>
MDecl(q) == LET x == Pick(q, 1, MKinds)
            IN  CASE x = "varchar" -> [k |-> x, len |-> Pick(q, 2, <<1, 20, 255, 256, 300>>)]
                  [] x = "char" -> [k |-> x, len |-> Pick(q, 2, <<1, 20, 255, 256, 300>>)]
                  [] OTHER -> W!Decl(q, <<x>>)
KeyDecl(q) == Pick(q, 1, << [k |-> "long"], [k |-> "longlong"], [k |-> "varchar", len |-> 20] >>)
MDecls(q) == LET n == 1 + Pick(q, 5, <<0, 1, 2, 3, 6, 8, 15, 20>>)
             IN  TLCEval([i \in 1..n |-> IF i = 1 THEN KeyDecl(Sub(q, 1)) ELSE MDecl(Sub(q, i))])
KeyOf(d, i) == CASE d.k = "long" -> W!Val(W!LE(i, 4), <<"int", W!LE(i, 4)>>)
                 [] d.k = "longlong" -> W!Val(W!LE(i, 8), <<"big", W!LE(i, 8)>>)
                 [] OTHER -> W!StrVal(20, 2, <<107, 48 + i>>)
RowOf(q, ds, i) == [n |-> TLCEval([c \in DOMAIN ds |-> c > 1 /\ Rn(q, 40 + c, 3) = 0]),
                    v |-> TLCEval([c \in DOMAIN ds |-> IF c = 1 THEN KeyOf(ds[1], i) ELSE W!Value(ds[c], Sub(q, c))])]
RowObs(ds, r) == W!ImageObs(ds, [c \in DOMAIN ds |-> TRUE], r.n, r.v)

Table0(q, t) == [id |-> t + 1, decls |-> MDecls(Sub(q, t)), rows |-> NoRows]
Some(q, S, n) == LET sq == Shuffle(q, SetToSortSeq(S, <)) IN SubSeq(sq, 1, IF n > Len(sq) THEN Len(sq) ELSE n)

(* one statement on table x: its row events' contents, and its rows afterwards *)
Stmt(q, t, x) ==
  LET ds == x.decls
      n == Len(ds)
      have == {i \in 1..K : x.rows[i] # <<>>}
      free == (1..K) \ have
      op == IF have = {} THEN "write" ELSE IF free = {} THEN Pick(q, 1, <<"update", "delete">>) ELSE Pick(q, 1, <<"write", "write", "update", "update", "delete">>)
      keys == TLCEval(Some(Sub(q, 1), IF op = "write" THEN free ELSE have, 1 + Rn(q, 2, 3)))
      all == [c \in 1..n |-> TRUE]
      minimal == Rn(q, 3, 2) = 0
      (* the columns an update changes; sometimes the key of its only row *)
      chg == [c \in 1..n |-> IF c = 1 THEN Len(keys) = 1 /\ free # {} /\ Rn(q, 4, 4) = 0 ELSE Rn(q, 10 + c, 2) = 0]
      p1 == TLCEval(IF minimal /\ op # "write" THEN [c \in 1..n |-> c = 1 \/ (Rn(q, 6, 3) # 0 /\ Rn(q, 20 + c, 4) = 0)] ELSE all)
      p2 == TLCEval(IF minimal /\ \E c \in 1..n : chg[c] THEN [c \in 1..n |-> chg[c] \/ Rn(q, 30 + c, 4) = 0] ELSE all)
      to(i) == IF op = "update" /\ chg[1] THEN Some(Sub(q, 2), free, 1)[1] ELSE i
      new(i) == LET r == RowOf(Sub(Sub(q, 3), i), ds, to(i))
                IN  IF op = "update"
                    THEN LET old == x.rows[i][1]
                         IN  [n |-> [c \in 1..n |-> IF chg[c] THEN r.n[c] ELSE old.n[c]], v |-> [c \in 1..n |-> IF chg[c] THEN r.v[c] ELSE old.v[c]]]
                    ELSE r
      news == TLCEval([m \in DOMAIN keys |-> new(keys[m])])
      img(m) == CASE op = "write" -> [n1 |-> news[m].n, v1 |-> news[m].v, n2 |-> <<>>, v2 |-> <<>>]
                  [] op = "delete" -> [n1 |-> x.rows[keys[m]][1].n, v1 |-> x.rows[keys[m]][1].v, n2 |-> <<>>, v2 |-> <<>>]
                  [] OTHER -> [n1 |-> x.rows[keys[m]][1].n, v1 |-> x.rows[keys[m]][1].v, n2 |-> news[m].n, v2 |-> news[m].v]
      ev(a, b) == [t |-> t, id |-> x.id, decls |-> ds, op |-> op, p1 |-> p1, p2 |-> p2, from |-> SubSeq(keys, a, b),
                   to |-> [m \in 1..(b - a + 1) |-> to(keys[a + m - 1])], new |-> SubSeq(news, a, b), rows |-> TLCEval([m \in 1..(b - a + 1) |-> img(a + m - 1)])]
      cut == 1 + Rn(q, 5, Len(keys))
  IN  TLCEval(IF cut < Len(keys) THEN <<ev(1, cut), ev(cut + 1, Len(keys))>> ELSE <<ev(1, Len(keys))>>)

(* what a program does with the contents of a row event *)
Idx(S, i) == CHOOSE m \in DOMAIN S : S[m] = i
Rows1(rows, c) ==
  LET gone == IF c.op = "write" THEN rows ELSE [i \in 1..K |-> IF \E m \in DOMAIN c.from : c.from[m] = i THEN <<>> ELSE rows[i]]
  IN  IF c.op = "delete" THEN gone
      ELSE [i \in 1..K |-> IF \E m \in DOMAIN c.to : c.to[m] = i THEN <<c.new[Idx(c.to, i)]>> ELSE gone[i]]
Apply1(tabs, c) == IF c.op = "clear" THEN [tabs EXCEPT ![c.t] = NoRows] ELSE [tabs EXCEPT ![c.t] = Rows1(@, c)]
RECURSIVE ApplyAll(_, _)
ApplyAll(tabs, q) == IF q = <<>> THEN tabs ELSE ApplyAll(TLCEval(Apply1(tabs, Head(q))), Tail(q))

Plain(x) == [op |-> "none", t |-> 0]
(* statements of a transaction of source c; acc: [evs, con, tabs] *)
RECURSIVE Stmts(_, _, _, _)
Stmts(q, c, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET g == Sub(q, n)
           t == 2 * c + Rn(g, 1, 2)
           u == 4 * c + 1 - t
           other == Rn(g, 2, 8)
           (* a table may get another's id *)
           sw == IF Rn(g, 3, 3) = 0 THEN TLCEval([acc.tabs EXCEPT ![t].id = acc.tabs[other].id, ![other].id = acc.tabs[t].id]) ELSE acc.tabs
           two == Rn(g, 4, 4) = 0
           e1 == Stmt(Sub(g, 5), t, sw[t])
           e2 == IF two THEN Stmt(Sub(g, 6), u, sw[u]) ELSE <<>>
           re == TLCEval(e1 \o e2)
           maps == IF two THEN <<t, u>> ELSE <<t>>
           evs == (IF Rn(g, 7, 3) = 0 THEN <<E("rq")>> ELSE IF Rn(g, 7, 3) = 1 THEN <<E("save")>> ELSE <<>>)
                  \o [m \in DOMAIN maps |-> T(maps[m])]
                  \o [m \in DOMAIN re |-> IF m = Len(re) THEN Re(re[m].t) ELSE R(re[m].t)]
           con == (IF Rn(g, 7, 3) # 2 THEN <<Plain(0)>> ELSE <<>>)
                  \o [m \in DOMAIN maps |-> [op |-> "map", t |-> maps[m], id |-> sw[maps[m]].id, decls |-> sw[maps[m]].decls]]
                  \o re
           rows1 == ApplyAll([x \in Tabs |-> sw[x].rows], re)
       IN  Stmts(q, c, n - 1, TLCEval([evs |-> acc.evs \o evs, con |-> acc.con \o con, tabs |-> [x \in Tabs |-> [sw[x] EXCEPT !.rows = rows1[x]]]]))

(* transaction i, from the tables before it *)
Tran(q, c, tabs) ==
  IF Rn(q, 1, IF Switch THEN 2 ELSE 6) = 0
  THEN LET t == 2 * c + Rn(q, 2, 2)
       IN  [body |-> [b |-> FALSE, sa |-> TRUE, evs |-> <<E("ddl")>>], con |-> <<[op |-> "clear", t |-> t]>>,
            tabs |-> [tabs EXCEPT ![t] = [@ EXCEPT !.rows = NoRows, !.decls = MDecls(Sub(q, 3))]]]
  ELSE LET r == Stmts(Sub(q, 4), c, 1 + Rn(q, 5, 3), [evs |-> <<>>, con |-> <<>>, tabs |-> tabs])
       IN  [body |-> [b |-> TRUE, sa |-> FALSE, evs |-> Append(r.evs, E(Pick(q, 6, <<"xid", "xid", "commit">>)))], con |-> Append(r.con, Plain(0)), tabs |-> r.tabs]
RECURSIVE Trans(_, _, _)
Trans(q, srcs, acc) ==
  IF Len(acc.raw) = Len(srcs) THEN acc
  ELSE LET i == Len(acc.raw) + 1
           c == srcs[i]
           x == TLCEval(Tran(Sub(q, i), c, acc.tabs))
           gr == Group(c, 0, x.body)
           off == Len(gr.evs) - Len(x.body.evs)
       IN  Trans(q, srcs, TLCEval([raw |-> Append(acc.raw, gr),
                                   con |-> Append(acc.con, [m \in DOMAIN gr.evs |-> IF m <= off THEN Plain(0) ELSE x.con[m - off]]),
                                   snap |-> Append(acc.snap, [t \in Of(c) |-> x.tabs[t].rows]),
                                   defs |-> Append(acc.defs, [t \in Of(c) |-> x.tabs[t].decls]), tabs |-> x.tabs]))

(* ------------------------------ the world ------------------------------ *)
app == <<db, copy, held, kept, last, did>>
Empty == [t \in Tabs |-> NoRows]
MInit == /\ Init /\ db = [con |-> <<>>, snap |-> <<>>, defs |-> <<>>] /\ copy = Empty /\ held = <<>> /\ kept = Empty /\ last = 0 /\ did = [now |-> {}, kept |-> {}]
MSeed == Seed /\ UNCHANGED app
MSetup ==
  /\ ph = "world" /\ ph' = "start"
  /\ \E n \in {IF FOCUS = "calm" THEN 4 + Rn(s, 1, 7) ELSE 2 + Rn(s, 1, 6)} :
     \E srcs \in {TLCEval([i \in 1..n |-> IF OneSource THEN 1 ELSE IF ~Gtid /\ ~Maria /\ OneIn(Sub(s, i), 2, 9) THEN 0 ELSE 1 + Rn(Sub(s, i), 3, 3)])} :
     \E x \in {Trans(Sub(s, 15), srcs, [raw |-> <<>>, con |-> <<>>, snap |-> <<>>, defs |-> <<>>, tabs |-> TLCEval([t \in Tabs |-> Table0(Sub(s, 16), t)])])} :
       /\ groups' = Number(x.raw)
       /\ db' = [con |-> x.con, snap |-> x.snap, defs |-> x.defs]
       /\ \E c1 \in {RCuts(Sub(s, 12), n)} :
          servers' = << [order |-> [i \in 1..n |-> i], cuts |-> c1, stops |-> {i \in c1 : Rn(s, 400 + i, 4) = 0}],
                        [order |-> Reorder(Sub(s, 13), groups'), cuts |-> RCuts(Sub(s, 14), n), stops |-> {}] >>
       /\ nlog' = IF Switch THEN n ELSE Rn(s, 4, n + 1)
  /\ UNCHANGED <<srv, opts, tr, pend, ses, queue, comm, done, saved, from, hist, s, k, copy, held, kept, last, did>>

(* the tables once the transactions in D are done *)
After(D) == [t \in Tabs |-> LET mine == {g \in D : groups[g].src = t \div 2}
                            IN  IF mine = {} THEN NoRows ELSE db.snap[Max(mine)][t]]
MStart ==
  /\ ph = "start" /\ ph' = "run" /\ k' = 1
  /\ LET n == Len(groups)
         first(c) == Rn(s, 430 + c, 1 + Cardinality({g \in 1..n : groups[g].src = c}))
         have == IF Gtid THEN {g \in 1..n : groups[g].n <= first(groups[g].src)} ELSE {}
         gt0 == IF ~Gtid THEN {} ELSE IF Maria THEN [c \in Srcs |-> first(c)] ELSE have
         i0 == IF STRAT = "pos" THEN Rn(s, 6, nlog + 1) ELSE 0
         at == IF i0 = 0 THEN <<1, Pick(s, 7, <<Start, Start + 2 * Step>>)>>
               ELSE LET lg == LogOf(1, i0) IN <<lg[Len(lg)].f, lg[Len(lg)].np>>
     IN  /\ from' = [set |-> STRAT # "end", i |-> i0, gt |-> gt0]
         /\ opts' = [file |-> IF STRAT = "pos" THEN at[1] ELSE 0,
                     pos |-> IF STRAT = "pos" THEN at[2] ELSE IF STRAT = "end" THEN 0 ELSE Start, gt |-> gt0]
         /\ saved' = [opts |-> opts', comm |-> {}, done |-> {}]
         /\ copy' = After(IF Gtid THEN have ELSE 1..i0) /\ kept' = copy'
         /\ hist' = <<[a |-> "init", o |-> opts', tabs |-> copy', n |-> i0]>>
  /\ UNCHANGED <<groups, servers, srv, nlog, tr, pend, ses, queue, comm, done, s, db, held, last, did>>

(* ------------------------------ the program ------------------------------ *)
Asks == STRAT = "end" /\ opts.file = 0
MConnect == Connect /\ held' = <<>> /\ copy' = (IF Asks THEN After(1..nlog) ELSE copy) /\ last' = 0 /\ UNCHANGED <<db, kept, did>>
MCommit ==
  /\ Commit
  /\ LET e == Head(queue)
         c == IF e.g = 0 THEN Plain(0) ELSE db.con[e.g][e.j]
         h == IF c.op \in {"write", "update", "delete", "clear"} THEN Append(held, c) ELSE held
         whole == IF Gtid THEN e.k \in {"xid", "commit", "ddl"} ELSE e.fin \/ e.k = "ddl"
     IN  /\ held' = IF whole THEN <<>> ELSE h
         /\ copy' = IF whole THEN ApplyAll(copy, h) ELSE copy
         /\ last' = IF e.g = 0 THEN 0 ELSE IF e.j < Len(groups[e.g].evs) THEN 0 ELSE IF Gtid /\ e.g \in did.now THEN -1 ELSE e.g
         /\ did' = IF e.g = 0 THEN did ELSE IF e.j < Len(groups[e.g].evs) THEN did ELSE [did EXCEPT !.now = @ \cup {e.g}]
  /\ UNCHANGED <<db, kept>>
MSave == Save /\ kept' = copy /\ last' = 0 /\ did' = [did EXCEPT !.kept = did.now] /\ UNCHANGED <<db, copy, held>>
MCrash == Crash /\ copy' = kept /\ held' = <<>> /\ last' = 0 /\ did' = [did EXCEPT !.now = did.kept] /\ UNCHANGED <<db, kept>>
Rest(A) == A /\ last' = 0 /\ UNCHANGED <<db, copy, held, kept, did>>

MRun ==
  /\ ph = "run" /\ k <= STEPS
  /\ k' = k + 1 /\ UNCHANGED <<ph, s>>
  /\ LET c == Choice IN
     CASE c = "deliver" -> Rest(Deliver) [] c = "commit" -> MCommit [] c = "save" -> MSave [] c = "drop" -> Rest(Drop)
       [] c = "crash" -> MCrash [] c = "failover" -> Rest(Failover) [] c = "beat" -> Rest(Beat) [] c = "grow" -> Rest(Grow)
       [] c = "connect" -> MConnect

(* ------------------------------ bytes ------------------------------ *)
TName(t) == <<116, 48 + t>>
Con(e) == db.con[e.g][e.j]
TBM(e, g) ==
  CASE e.k = "tmap" -> <<W!T_TMAP, W!TableMap(TabId(Con(e).id), 1, <<100, 98>>, TName(Con(e).t), Con(e).decls, [c \in DOMAIN Con(e).decls |-> c > 1], <<>>).b, "">>
    [] e.k = "rows" ->
         LET c == Con(e)
             r == W!RowsEvent(c.op, IF Maria THEN 1 ELSE 1 + Rn(g, 3, 2), TabId(c.id), (IF e.fin THEN 1 ELSE 0) + Pick(g, 2, <<0, 0, 2, 4, 8, 14>>), <<>>,
                              c.decls, c.p1, c.p2, c.rows)
         IN  <<r.t, r.b, "">>
    [] e.k = "ddl" -> <<W!T_QUERY, RBytes(g, 8) \o <<2, 0, 0, 0, 0, 100, 98, 0>>, Pick(g, 1, <<"TRUNCATE TABLE ", "DROP TABLE ">>) \o "t" \o ToString(Con(e).t)>>
    [] OTHER -> TB(e, g)

(* rows of table t, defined by ds, as a program reads them *)
Shown(ds, rows) == LET sq == SelectSeq([i \in 1..K |-> i], LAMBDA i : rows[i] # <<>>) IN [m \in DOMAIN sq |-> RowObs(ds, rows[sq[m]][1])]
GNow(t, D) == LET mine == {g \in D : groups[g].src = t \div 2} IN IF mine = {} THEN <<>> ELSE Shown(db.defs[Max(mine)][t], db.snap[Max(mine)][t])
State(D) == [t \in 1..8 |-> GNow(t - 1, D)]
Dones(o, n) == IF Gtid THEN IF Maria THEN {g \in DOMAIN groups : groups[g].n <= o.gt[groups[g].src]} ELSE o.gt ELSE 1..n
StepM(i) ==
  LET x == hist[i] IN
  CASE x.a = "event" -> [a |-> "event", e |-> Framed(x.e, TBM(x.e, Draw(x.e))), k |-> x.e.k, g |-> x.e.g,
                         fin |-> x.e.g # 0 /\ x.e.j = Len(groups[x.e.g].evs)]
    [] x.a = "init" -> [a |-> "init", o |-> OptB(x.o), tabs |-> State(Dones(x.o, x.n))]
    [] x.a = "connect" -> StepB(i) @@ [tabs |-> IF x.ask THEN State(1..x.n) ELSE <<>>]
    [] OTHER -> StepB(i)
MFinish ==
  /\ ph = "run" /\ k > STEPS
  /\ CSVWrite("%1$s", <<ToJson([maria |-> Maria, strat |-> STRAT, crc |-> Crc,
        src |-> [g \in DOMAIN groups |-> groups[g].src],
        snap |-> [g \in DOMAIN groups |-> LET o == Of(groups[g].src) IN [m \in 1..2 |-> Shown(db.defs[g][Min(o) + m - 1], db.snap[g][Min(o) + m - 1])]],
        steps |-> [i \in DOMAIN hist |-> StepM(i)]])>>, IOEnv.OUT)
  /\ ph' = "done" /\ UNCHANGED <<vars, s, k, app>>

(* ------------------------------ guarantee ------------------------------ *)
Once == last # -1
Mirror == ph = "run" /\ last > 0 => \A t \in Of(groups[last].src) : copy[t] = db.snap[last][t]

MNext == MSeed \/ MSetup \/ MStart \/ MRun \/ MFinish
=============================================================================
