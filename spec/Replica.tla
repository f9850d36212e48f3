------------------------------- MODULE Replica -------------------------------
(* Replication with a recorded position: servers with a binary log, a client
   that is delivered events, commits them (late, in order), saves its
   position, loses the connection, crashes and restarts from the saved
   position, or is pointed at another server holding the same transactions.

   One action per step a program using the crate (or its environment) takes:
     Grow      the server logs the next transaction
     Connect   BinlogClient::replicate: the start request, and what it resets
     Deliver   one event is yielded by BinlogEvents::next
     Beat      the same for a heartbeat, when the server has nothing to send
     Commit    BinlogClient::commit on the oldest event not yet committed
     Save      the program stores the recorded position durably
     Drop      the connection is lost (or ends, at the end of the log)
     Crash     the program is restarted from what it stored
     Failover  (GTID) from now on the client connects to another server

   Events are records of one shape: k kind, g transaction, j index in it,
   id table, fin last row event of its statement, f file, np end position
   (0: none), tf/tp target of a rotate event.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS
  FLAVOR,    \* "mysql", "maria"
  STRAT,     \* "start", "pos", "end", "gtid"
  V,         \* faults of the client's design to show that the properties notice them; {} = the design
  MAXLAG,    \* events delivered and not yet committed
  HIST       \* record the history

VARIABLES
  groups,    \* transactions in their order of origin: [src, n, sa, evs]
  servers,   \* [order: indices of groups, cuts: where files end, stops: files that end without rotate]
  srv, nlog, \* the server in use, number of transactions in its log
  opts,      \* recorded position: [file, pos, gt]
  tr, pend,  \* in a transaction; the GTID not yet credited (0: none)
  ses,       \* [on, file, pos, gt, at, hbs, beat] the running event stream
  queue,     \* delivered, not committed
  comm, done,\* events committed; transactions whose last event is committed
  saved,     \* [opts, comm, done]
  from,      \* where the client started: [set, i or gt]
  hist

vars == <<groups, servers, srv, nlog, opts, tr, pend, ses, queue, comm, done, saved, from, hist>>

Maria == FLAVOR = "maria"
Gtid == STRAT = "gtid"
Srcs == 0..3

(* ------------------------------ transactions ------------------------------ *)
E(k) == [k |-> k, id |-> 0, fin |-> FALSE]
T(id) == [k |-> "tmap", id |-> id, fin |-> FALSE]
R(id) == [k |-> "rows", id |-> id, fin |-> FALSE]
Re(id) == [k |-> "rows", id |-> id, fin |-> TRUE]
(* a row event the client does not decode (a partial update, a compressed row event) *)
X(id) == [k |-> "rowsx", id |-> id, fin |-> FALSE]
Xe(id) == [k |-> "rowsx", id |-> id, fin |-> TRUE]

Changes == {"rows", "rowsx", "query", "queryx", "load", "ddl", "ddlx", "payload", "xacommit", "xarollback"}

(* what follows the GTID event; sa: MariaDB's mark of a standalone group *)
Bodies == <<
  [b |-> TRUE,  sa |-> FALSE, evs |-> <<T(1), Re(1), E("xid")>>],
  [b |-> TRUE,  sa |-> FALSE, evs |-> <<E("rq"), T(1), T(2), R(1), Re(2), T(1), Re(1), E("xid")>>],
  [b |-> TRUE,  sa |-> FALSE, evs |-> <<E("ivar"), E("query"), E("save"), E("query"), E("commit")>>],
  [b |-> FALSE, sa |-> TRUE,  evs |-> <<E("ddl")>>],
  [b |-> TRUE,  sa |-> FALSE, evs |-> <<T(1), R(1), Re(1), E("rollback")>>],
  [b |-> FALSE, sa |-> FALSE, evs |-> <<E("xastart"), T(1), Re(1), E("xaend"), E("xaprep")>>],
  [b |-> FALSE, sa |-> FALSE, evs |-> <<E("xacommit")>>],
  [b |-> FALSE, sa |-> FALSE, evs |-> <<E("xarollback")>>],
  [b |-> TRUE,  sa |-> FALSE, evs |-> <<E("ctas"), T(1), Re(1), E("xid")>>],
  [b |-> TRUE,  sa |-> FALSE, evs |-> <<E("uvar"), E("query"), E("xid")>>],
  [b |-> TRUE,  sa |-> FALSE, evs |-> <<T(1), X(1), Re(1), T(1), T(2), R(2), Xe(1), E("xid")>>],
  [b |-> TRUE,  sa |-> FALSE, evs |-> <<T(1), T(2), X(2), R(1), X(1), Re(2), E("commit")>>],
  (* compressed: the whole transaction (MySQL), a statement that commits itself (MariaDB) *)
  IF Maria THEN [b |-> FALSE, sa |-> TRUE, evs |-> <<E("ddlx")>>]
           ELSE [b |-> FALSE, sa |-> FALSE, evs |-> <<E("payload")>>],
  [b |-> TRUE,  sa |-> FALSE, evs |-> <<E("load"), E(IF Maria THEN "queryx" ELSE "query"), E("load"), E("xid")>>] >>

(* a transaction: src 0 has no GTID *)
Group(src, n, t) ==
  LET nog == src = 0
      body == IF Maria /\ ~nog THEN SelectSeq(t.evs, LAMBDA e : e.k # "xastart") ELSE t.evs
      head == IF nog THEN (IF Maria THEN <<>> ELSE <<E("anon")>>) ELSE <<E("gtid")>>
  IN  [src |-> src, n |-> n, sa |-> t.sa,
       evs |-> head \o (IF t.b /\ (~Maria \/ nog) THEN <<E("begin")>> ELSE <<>>) \o body]

Number(seq) == [i \in DOMAIN seq |-> [seq[i] EXCEPT !.n = Cardinality({j \in 1..i : seq[j].src = seq[i].src})]]

(* ------------------------------ the log ------------------------------ *)
Step == 10
Start == 4
Ev(e, g, j, f, np) == [k |-> e.k, g |-> g, j |-> j, id |-> e.id, fin |-> e.fin, f |-> f, np |-> np, tf |-> 0, tp |-> 0]
Rot(k, f, np, tf, tp) == [Ev(E(k), 0, 0, f, np) EXCEPT !.tf = tf, !.tp = tp]

Written(g, j, f, p) == [m \in DOMAIN groups[g].evs |-> Ev(groups[g].evs[m], g, m, f, p + Step * m)]
(* the j of "prev" is the number of transactions in the files before it *)
Opening(f, i) == <<Ev(E("fde"), 0, 0, f, Start + Step), Ev(E("prev"), 0, i, f, Start + 2 * Step)>>

RECURSIVE Build(_, _, _, _, _, _)
Build(sv, n, i, f, p, acc) ==
  IF i > n THEN acc
  ELSE IF i > 1 /\ (i - 1) \in sv.cuts
  THEN LET close == IF (i - 1) \in sv.stops THEN Ev(E("stop"), 0, 0, f, p + Step)
                    ELSE Rot("rotate", f, p + Step, f + 1, Start)
           ws == Written(sv.order[i], 0, f + 1, Start + 2 * Step)
       IN  Build(sv, n, i + 1, f + 1, Start + 2 * Step + Step * Len(ws), acc \o <<close>> \o Opening(f + 1, i - 1) \o ws)
  ELSE LET ws == Written(sv.order[i], 0, f, p)
       IN  Build(sv, n, i + 1, f, p + Step * Len(ws), acc \o ws)
First(v) == 100 * (v - 1) + 1    \* number of a server's first file
LogOf(v, n) == Build(servers[v], n, 1, First(v), Start + 2 * Step, Opening(First(v), 0))
Log == LogOf(srv, nlog)

LogEnd == Log[Len(Log)]          \* its f and np: the end of the log
FileEvs(lg, f) == SelectSeq(lg, LAMBDA e : e.f = f)
LastFile(lg) == lg[Len(lg)].f

(* ------------------------------ what a server sends ------------------------------ *)
Covered(g, gt) == IF groups[g].src = 0 THEN FALSE
                  ELSE IF Maria THEN gt[groups[g].src] >= groups[g].n ELSE g \in gt
Credit(gt, g) == IF g = 0 THEN gt ELSE IF Maria THEN [gt EXCEPT ![groups[g].src] = groups[g].n] ELSE gt \cup {g}

FakeRot(f, p) == Rot("rotate", f, 0, f, p)

(* file f from position p on, skipping transactions in skip; hbs: a heartbeat for each one skipped *)
FilePart(lg, f, p, gt, usegt, hbs) ==
  LET evs == FileEvs(lg, f)
      skip(e) == usegt /\ e.g # 0 /\ Covered(e.g, gt)
      rest == SelectSeq(evs, LAMBDA e : e.k # "fde" /\ e.np > p)
      lastOf(e) == e.j = Len(groups[e.g].evs)
      keep == SelectSeq(rest, LAMBDA e : ~skip(e) \/ (hbs /\ lastOf(e)))
      out == [i \in DOMAIN keep |-> IF skip(keep[i]) THEN Ev(E("hb"), 0, 0, f, keep[i].np) ELSE keep[i]]
      fde == Ev(E("fde"), 0, 0, f, IF p > Start THEN 0 ELSE Start + Step)
  IN  <<FakeRot(f, p), fde>> \o out

RECURSIVE Files(_, _, _, _, _)
Files(lg, f, gt, usegt, hbs) ==
  IF f > LastFile(lg) THEN <<>>
  ELSE FilePart(lg, f, Start, gt, usegt, hbs) \o Files(lg, f + 1, gt, usegt, hbs)

(* the file a server starts with when asked by GTID: the last one before which all transactions are covered *)
GtidFile(lg, gt) ==
  Max({f \in lg[1].f..LastFile(lg) :
         \A i \in DOMAIN lg : lg[i].g # 0 /\ lg[i].f < f /\ groups[lg[i].g].src # 0 => Covered(lg[i].g, gt)})

(* where server v starts reading for a request; MySQL honours a file name sent along with a GTID set *)
StartFile(v, n, q) == IF Gtid THEN (IF ~Maria /\ q.file # 0 THEN q.file ELSE GtidFile(LogOf(v, n), q.gt))
                      ELSE IF q.file = 0 THEN First(v) ELSE q.file
StartPos(q) == IF Gtid /\ (Maria \/ q.file = 0) THEN Start ELSE q.pos

(* all it sends on that request, as far as the log goes now *)
Stream(v, n, q) ==
  LET lg == LogOf(v, n) IN
  IF q.sf \notin First(v)..LastFile(lg) THEN <<>>
  ELSE FilePart(lg, q.sf, q.sp, q.gt, Gtid, q.hbs) \o Files(lg, q.sf + 1, q.gt, Gtid, q.hbs)
Opened(v, n, q, hbs) == [on |-> TRUE, sf |-> StartFile(v, n, q), sp |-> StartPos(q), gt |-> q.gt, at |-> 0, hbs |-> hbs, beat |-> FALSE]

(* ------------------------------ the client ------------------------------ *)
(* the start request made from a recorded position *)
Request(o) == IF Gtid /\ ~Maria /\ "gdumpfile" \notin V
              THEN [file |-> 0, pos |-> Start, gt |-> o.gt]
              ELSE [file |-> o.file, pos |-> o.pos, gt |-> o.gt]

Off == [on |-> FALSE, sf |-> 0, sp |-> 0, gt |-> {}, at |-> 0, hbs |-> FALSE, beat |-> FALSE]

H(x) == hist' = IF HIST THEN Append(hist, x) ELSE hist

Connect ==
  /\ ~ses.on
  /\ \E hbs \in (IF Gtid /\ ~Maria THEN BOOLEAN ELSE {FALSE}) :
     LET ask == STRAT = "end" /\ opts.file = 0
         o == IF ask THEN [opts EXCEPT !.file = LogEnd.f, !.pos = LogEnd.np] ELSE opts
         q == Request(o)
     IN  /\ opts' = o
         /\ ses' = Opened(srv, nlog, q, hbs)
         /\ from' = IF from.set THEN from ELSE [from EXCEPT !.set = TRUE, !.i = IF STRAT = "end" THEN nlog ELSE @]
         /\ H([a |-> "connect", srv |-> srv, end |-> <<LogEnd.f, LogEnd.np>>, ask |-> ask, n |-> nlog, req |-> q, o |-> o])
  /\ tr' = (IF "keeptr" \in V THEN tr ELSE FALSE) /\ pend' = (IF "keeppend" \in V THEN pend ELSE 0)
  /\ queue' = <<>>
  /\ UNCHANGED <<groups, servers, srv, nlog, comm, done, saved>>

Deliver ==
  /\ ses.on /\ Len(queue) < MAXLAG
  /\ LET s == Stream(srv, nlog, ses) IN
     /\ ses.at < Len(s)
     /\ queue' = Append(queue, s[ses.at + 1])
     /\ H([a |-> "event", e |-> s[ses.at + 1], fake |-> FALSE])
  /\ ses' = [ses EXCEPT !.at = @ + 1, !.beat = FALSE]
  /\ UNCHANGED <<groups, servers, srv, nlog, opts, tr, pend, comm, done, saved, from>>

Beat ==
  /\ ses.on /\ ~ses.beat /\ Len(queue) < MAXLAG
  /\ ses.at > 1 /\ ses.at = Len(Stream(srv, nlog, ses))
  /\ LET e == Ev(E("hb"), 0, 0, LogEnd.f, LogEnd.np) IN
     queue' = Append(queue, e) /\ H([a |-> "event", e |-> e, fake |-> FALSE])
  /\ ses' = [ses EXCEPT !.beat = TRUE]
  /\ UNCHANGED <<groups, servers, srv, nlog, opts, tr, pend, comm, done, saved, from>>

Queries == {"begin", "query", "queryx", "ddlx", "save", "ddl", "ctas", "commit", "rollback", "xastart", "xaend", "xacommit", "xarollback"}
Opens(e) == e.k = "begin" \/ (e.k = "xastart" /\ "noxa" \notin V)
Ends(e) == e.k \in {"xid", "commit", "rollback"}
           \/ (e.k \in {"xacommit", "xarollback", "xaprep"} /\ "noxa" \notin V)
           \/ (e.k = "payload" /\ "nopayload" \notin V)
(* the event ends the transaction of the pending GTID *)
Finishes(e) == Ends(e) \/ (e.k \in Queries /\ ~Opens(e) /\ ~tr)

Stays(e) == e.k = "tmap" \/ (e.k = "rows" /\ ~e.fin /\ "stmtpos" \notin V) \/ (e.k = "rowsx" /\ "opaque" \notin V)

Commit ==
  /\ queue # <<>>
  /\ LET e == Head(queue)
         gt1 == IF Gtid /\ Finishes(e) THEN Credit(opts.gt, pend) ELSE opts.gt
         o == IF e.k = "rotate" THEN [file |-> e.tf, pos |-> e.tp, gt |-> gt1]
              ELSE IF Stays(e) \/ e.np = 0 THEN [opts EXCEPT !.gt = gt1]
              ELSE [opts EXCEPT !.gt = gt1, !.pos = e.np]
     IN  /\ opts' = o
         /\ tr' = IF e.k = "gtid" /\ Maria /\ "nostandalone" \notin V THEN ~groups[e.g].sa
                  ELSE IF Opens(e) THEN TRUE ELSE IF Finishes(e) THEN FALSE ELSE tr
         /\ pend' = IF e.k = "gtid" THEN e.g ELSE pend
         /\ comm' = IF e.g = 0 THEN comm ELSE comm \cup {<<e.g, e.j>>}
         /\ done' = IF e.g # 0 /\ e.j = Len(groups[e.g].evs) THEN done \cup {e.g} ELSE done
         /\ H([a |-> "commit", o |-> o])
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<groups, servers, srv, nlog, ses, saved, from>>

Save ==
  /\ saved # [opts |-> opts, comm |-> comm, done |-> done]
  /\ from.set
  /\ saved' = [opts |-> opts, comm |-> comm, done |-> done]
  /\ H([a |-> "save"])
  /\ UNCHANGED <<groups, servers, srv, nlog, opts, tr, pend, ses, queue, comm, done, from>>

(* queued events can still be committed until the client connects again *)
Drop ==
  /\ ses.on
  /\ ses' = Off
  /\ H([a |-> "drop", end |-> ses.at = Len(Stream(srv, nlog, ses))])
  /\ UNCHANGED <<groups, servers, srv, nlog, opts, tr, pend, queue, comm, done, saved, from>>

Crash ==
  /\ ses' = Off /\ queue' = <<>> /\ tr' = FALSE /\ pend' = 0
  /\ opts' = IF Gtid THEN [file |-> 0, pos |-> Start, gt |-> saved.opts.gt] ELSE saved.opts   \* what is stored
  /\ comm' = saved.comm /\ done' = saved.done
  /\ from' = IF STRAT = "end" /\ saved.opts.file = 0 THEN [from EXCEPT !.set = FALSE] ELSE from
  /\ H([a |-> "crash"])
  /\ UNCHANGED <<groups, servers, srv, nlog, saved>>

SameLog(v, t) == {servers[v].order[i] : i \in 1..nlog} = {servers[t].order[i] : i \in 1..nlog}
Failover ==
  /\ Gtid /\ ~ses.on
  /\ \E t \in DOMAIN servers : t # srv /\ SameLog(srv, t) /\ srv' = t
  /\ H([a |-> "failover"])
  /\ UNCHANGED <<groups, servers, nlog, opts, tr, pend, ses, queue, comm, done, saved, from>>

Grow ==
  /\ nlog < Len(groups)
  /\ nlog' = nlog + 1
  /\ ses' = [ses EXCEPT !.beat = FALSE]
  /\ H([a |-> "grow"])
  /\ UNCHANGED <<groups, servers, srv, opts, tr, pend, queue, comm, done, saved, from>>

Next == Connect \/ Deliver \/ Beat \/ Commit \/ Save \/ Drop \/ Crash \/ Failover \/ Grow

(* ------------------------------ properties ------------------------------ *)
OrderIdx(g) == CHOOSE i \in DOMAIN servers[srv].order : servers[srv].order[i] = g
InScope(g) == IF Gtid THEN groups[g].src # 0 /\ ~Covered(g, from.gt)
              ELSE from.set /\ OrderIdx(g) > from.i
LoggedNow == {servers[srv].order[i] : i \in 1..nlog}

(* C01 *)
GtidExact ==
  Gtid => opts.gt = IF Maria
                    THEN [s \in Srcs |-> Max({from.gt[s]} \cup {groups[g].n : g \in {h \in done : groups[h].src = s /\ s # 0}})]
                    ELSE from.gt \cup {g \in done : groups[g].src # 0}

Resumed(o) == Stream(srv, nlog, Opened(srv, nlog, Request(o), FALSE))

(* C02: every change of the log that is not committed would be sent again, ... *)
NoLossFrom(o, c) ==
  LET s == Resumed(o)
      sent == {<<s[i].g, s[i].j>> : i \in DOMAIN s}
  IN  \A g \in LoggedNow : InScope(g) =>
        \A j \in DOMAIN groups[g].evs :
          groups[g].evs[j].k \in Changes /\ <<g, j>> \notin c => <<g, j>> \in sent
(* ... and can be decoded *)
DecodableFrom(o) ==
  LET s == Resumed(o) IN
  \A i \in DOMAIN s : s[i].k = "rows" => \E h \in 1..(i - 1) : s[h].k = "tmap" /\ s[h].id = s[i].id /\ s[h].g = s[i].g
Ready == from.set \/ STRAT # "end"
NoLoss == Ready => /\ NoLossFrom(opts, comm)
                   /\ (saved.opts.file = 0 /\ STRAT = "end") \/ NoLossFrom(saved.opts, saved.comm)
Decodable == Ready => DecodableFrom(opts)
(* the changes of a stream come in log order *)
InOrder ==
  Ready => LET s == Resumed(opts) IN
  \A i, j \in DOMAIN s : i < j /\ s[i].g # 0 /\ s[j].g # 0 =>
     OrderIdx(s[i].g) < OrderIdx(s[j].g) \/ (s[i].g = s[j].g /\ s[i].j < s[j].j)
(* C03: what is before the recorded place is not sent again: nothing of finished
   transactions (GTID), no finished statement (file and position) *)
NoRepeat ==
  Ready => LET s == Resumed(opts) IN
  \A i \in DOMAIN s : s[i].g # 0 =>
     IF Gtid THEN groups[s[i].g].src # 0 => s[i].g \notin done
     ELSE (s[i].k \notin {"tmap", "rows", "rowsx"} \/ (s[i].k = "rows" /\ s[i].fin)) => <<s[i].g, s[i].j>> \notin comm

(* the recorded place is a place in the log *)
RealPlace == Ready /\ ~Gtid /\ opts.file # 0 =>
  opts.pos = Start \/ \E i \in 1..Len(LogOf(srv, nlog)) : Log[i].f = opts.file /\ Log[i].np = opts.pos
=============================================================================
