------------------------------- MODULE Decode -------------------------------
(* A log stream as the client sees it: what the server sends, which checksum
   algorithm is in force, which table definitions the stream has carried, and
   what the client therefore has to report for every event.

   State
     ph    phase: "seed" -> "run" -> "done"
     s     generator state for the data of this behaviour
     k     number of the next step
     live  TRUE: replication stream, FALSE: binlog file
     nego  algorithm negotiated at set-up ("NONE"/"CRC32"), for a file "NONE"
     alg   algorithm in force: 0 none, 1 CRC32
     tabs  table definitions received on this stream: <<id, declarations>>
     segs  finished connections (or files); cur: items of the current one

   Properties checked by TLC on the behaviours it generates: AlgInForce,
   LatestDef (see below).  The behaviours are replayed on the real decoder. *)
EXTENDS Wire, Randomization, Json, CSV, IOUtils

CONSTANTS MIX, STEPS

VARIABLES ph, s, k, live, nego, alg, tabs, segs, cur, ghost
vars == <<ph, s, k, live, nego, alg, tabs, segs, cur, ghost>>

Init == /\ ph = "seed" /\ s = <<1, 1, 1>> /\ k = 0 /\ live = TRUE /\ nego = "NONE"
        /\ alg = 0 /\ tabs = <<>> /\ segs = <<>> /\ cur = <<>> /\ ghost = <<>>

Seed ==
  /\ ph = "seed"
  /\ \E x \in RandomSubset(1, 1..30000), y \in RandomSubset(1, 1..30000), z \in RandomSubset(1, 1..30000) :
       LET q == <<x, y, z>>
           l == Rn(q, 1, 2) = 0
           n == IF l /\ Rn(q, 2, 2) = 0 THEN "CRC32" ELSE "NONE"
       IN  /\ s' = q /\ live' = l /\ nego' = n /\ alg' = (IF n = "CRC32" THEN 1 ELSE 0)
  /\ ph' = "run" /\ k' = 1
  /\ UNCHANGED <<tabs, segs, cur, ghost>>

(* the item for event ev; a = checksum bytes follow (1) or not (0) *)
Item(ev, g, a, x) ==
  TLCEval([h |-> Header(EBytes(Sub(g, 71), 4), ev.t, EBytes(Sub(g, 72), 4), 19 + BLen(ev.b) + 4 * a,
                EBytes(Sub(g, 73), 4), EBytes(Sub(g, 74), 2)),
   b |-> ev.b, c |-> a, x |-> x])
Ok(ev) == <<"ok", ev.e>>
Emit(i) == cur' = Append(cur, i)
Send(ev, g) == Emit(Item(ev, g, alg, Ok(ev)))

(* ---- table definitions ---- *)
TabIdx(id) == {i \in DOMAIN tabs : tabs[i][1] = id}
HasDef(id) == TabIdx(id) # {}
DefOf(id) == tabs[CHOOSE i \in TabIdx(id) : TRUE][2]
SetDef(id, d) == IF HasDef(id) THEN [tabs EXCEPT ![CHOOSE i \in TabIdx(id) : TRUE] = <<id, d>>]
                 ELSE Append(tabs, <<id, d>>)

Ids == << <<1, 0, 0, 0, 0, 0>>, <<2, 0, 0, 0, 0, 0>>, <<1, 1, 0, 0, 0, 0>>, <<1, 0, 0, 0, 1, 0>>,
          <<1, 0, 0, 0, 0, 1>>, <<255, 255, 255, 255, 255, 255>> >>

SmallKinds == <<"tiny", "short", "long", "longlong", "varchar">>
SmallDecl(g) == LET kk == Pick(g, 1, SmallKinds)
                IN  IF kk = "varchar" THEN [k |-> kk, len |-> Pick(g, 2, <<10, 300>>)] ELSE [k |-> kk]
SmallDecls(g, n) == TLCEval([i \in 1..n |-> SmallDecl(Sub(g, i))])

(* ---- steps ---- *)
DoMap(g, id, d, rich) ==
  \* half of the plain ones have the same names: a table altered, or given another id
  LET ev == IF rich THEN RMap(g, id, d) ELSE PlainMap(IF Rn(g, 28, 2) = 0 THEN g ELSE Sub(s, 60), id, d)
  IN  Send(ev, g) /\ tabs' = TLCEval(SetDef(id, d)) /\ UNCHANGED alg

DoRows(g, id, full, nr) ==
  /\ UNCHANGED <<alg, tabs>>
  /\ IF HasDef(id)
     THEN Send(RRows(g, id, DefOf(id), full, nr), g)
     ELSE LET ev == RRows(g, id, SmallDecls(g, 3), full, nr)
          IN  Emit(Item(ev, g, alg, <<"err", "nomap">>))

(* a row event cut inside its last row: cannot be decoded *)
DoBroken(g, id) ==
  /\ UNCHANGED <<alg, tabs>>
  /\ LET d == IF HasDef(id) THEN DefOf(id) ELSE SmallDecls(g, 3)
         n == Len(d)
         all == [i \in 1..n |-> TRUE]
         non == [i \in 1..n |-> FALSE]
         row == [RRow(g, d) EXCEPT !.n1 = non, !.n2 = non]
         ev == RowsEvent("write", 2, id, 1, <<>>, d, all, all, <<row>>)
         cut == [ev EXCEPT !.b = SubSeq(ev.b, 1, Len(ev.b) - 1)]
     IN  Emit(Item(cut, g, alg, <<"err", "">>))

DoFde(g, a) ==
  /\ UNCHANGED tabs
  /\ LET ev == FdeEv(RText(Sub(g, 9), Pick(g, 9, <<0, 3, 6, 20, 49, 50>>)),
                     Pick(g, 8, <<27, 35, 38, 40, 41, 42, 160, 164, 171, 172>>), a, g)
     IN  IF a \in {-1, 0, 1}
         THEN /\ Emit(Item(ev, g, IF a = -1 THEN 0 ELSE 1, Ok(ev)))
              /\ alg' = IF a = -1 THEN 0 ELSE a
         ELSE /\ Emit(Item(ev, g, 1, <<"err", "">>))
              /\ UNCHANGED alg

Plain(ev, g) == Send(ev, g) /\ UNCHANGED <<alg, tabs>>

Misc(g) ==
  LET c == Rn(g, 11, 18) IN
  CASE c \in {0, 1} -> RQuery(g)   [] c = 2 -> RXid(g)       [] c = 3 -> RIntvar(g)
    [] c \in {4, 5} -> RUserVar(g) [] c \in {6, 7} -> RRotate(g)    [] c \in {8, 9} -> RRowsQuery(g)
    [] c = 10 -> RHb(g)            [] c \in {11, 12} -> RGtid(g)    [] c = 13 -> RPrev(g)
    [] c = 14 -> RMList(g)         [] c = 15 -> RUnknown(g) [] OTHER -> RPrev(g)
(* MariaDB's GTID takes its server id from the header *)
DoMGtid(g) ==
  /\ UNCHANGED <<alg, tabs>>
  /\ LET ev == MGtidEv(g, EBytes(Sub(g, 72), 4)) IN Send(ev, g)

NewStream(g) ==
  /\ segs' = Append(segs, cur) /\ cur' = <<>> /\ tabs' = <<>>
  /\ alg' = IF nego = "CRC32" THEN 1 ELSE 0

Step10(g) ==
  LET c == Rn(g, 10, 9) IN
  /\ UNCHANGED segs
  /\ CASE c \in {0, 1} -> DoFde(g, Pick(g, 12, <<0, 1, 1, 1, -1>>))
       [] c = 2 -> DoFde(g, Pick(g, 12, <<0, 1, 2, 3, 127, 255>>))
       [] c = 3 -> Plain(RUnknown(g), g)
       [] c = 4 -> Plain(RQuery(g), g)
       [] c = 5 -> Plain(RRotate(g), g)
       [] c = 6 -> Plain(RXid(g), g)
       [] c = 7 -> Plain(RHb(g), g)
       [] OTHER -> Plain(RRowsQuery(g), g)

Step11(g) ==
  LET c == Rn(g, 10, 16)  id == Pick(g, 13, Ids) IN
  IF c = 0 /\ Rn(g, 14, 2) = 0 THEN NewStream(g)
  ELSE /\ UNCHANGED segs
       /\ CASE c \in {1, 2, 3, 4} -> DoMap(g, id, SmallDecls(g, 1 + Rn(g, 15, 5)), FALSE)
            [] c \in 5..11 -> DoRows(g, id, Rn(g, 16, 2) = 0, 1 + Rn(g, 17, 2))
            [] c = 12 -> DoBroken(g, id)
            [] c = 13 -> Plain(RRotate(g), g)
            [] c = 14 -> DoFde(g, Pick(g, 12, <<0, 1, 1, -1, 7>>))
            [] OTHER -> Plain(RXid(g), g)

OneId == <<77, 3, 0, 0, 0, 0>>
(* after a definition of table OneId, row events for it *)
StepRows(g, decls, full) ==
  IF k % 4 = 1 \/ ~HasDef(OneId) THEN DoMap(g, OneId, decls, FALSE)
  ELSE DoRows(g, OneId, full, Pick(g, 17, <<1, 1, 2, 3, 5>>))

Step12(g) == UNCHANGED segs /\
  StepRows(g, SmallDecls(g, IF OneIn(g, 24, 14) THEN Pick(g, 18, <<64, 65, 250, 251, 256>>) ELSE Pick(g, 18, <<1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 33>>)), FALSE)
Step13(g) == UNCHANGED segs /\
  IF k % 4 = 0 /\ HasDef(OneId) /\ Rn(g, 19, 12) = 0
  THEN \* a table of one negative TIME
       LET d == IF Rn(g, 20, 2) = 0 THEN [k |-> "time"] ELSE [k |-> "time2", fsp |-> Rn(g, 21, 7)]
           m == PlainMap(g, <<78, 0, 0, 0, 0, 0>>, <<d>>)
           all == <<TRUE>>
           row == [n1 |-> <<FALSE>>, v1 |-> <<Val(NegTime(d, g), <<>>)>>, n2 |-> <<FALSE>>, v2 |-> <<Val(<<>>, <<>>)>>]
           ev == RowsEvent("write", 2, <<78, 0, 0, 0, 0, 0>>, 1, <<>>, <<d>>, all, all, <<row>>)
       IN  /\ cur' = cur \o <<Item(m, g, alg, Ok(m)), Item(ev, Sub(g, 2), alg, <<"err", "">>)>>
           /\ tabs' = SetDef(<<78, 0, 0, 0, 0, 0>>, <<d>>) /\ UNCHANGED alg
  ELSE StepRows(g, Decls(g, Pick(g, 18, <<1, 2, 3, 5, 9, 12>>), AllKinds), Rn(g, 22, 4) # 0)
Step14(g) == UNCHANGED segs /\
  LET n == IF OneIn(g, 24, 12) THEN Pick(g, 18, <<30, 250, 251, 300>>) ELSE Pick(g, 18, <<1, 2, 3, 5, 8, 9, 17>>)
  IN  DoMap(g, RBytes(Sub(g, 6), 6), IF n > 40 THEN SmallDecls(g, n) ELSE Decls(g, n, AllKinds), n <= 40 \/ Rn(g, 23, 2) = 0)
Step15(g) == UNCHANGED segs /\
  LET c == Rn(g, 10, 12) IN
  CASE c = 0 -> DoFde(g, Pick(g, 12, <<0, 1, 1, -1>>))
    [] c = 1 -> DoMGtid(g)
    [] OTHER -> Plain(Misc(g), g)

(* ---- corrupted events: the body (and now and then the type) are not what was logged ---- *)
Odd == <<0, 1, 127, 128, 250, 251, 252, 253, 254, 255>>
SetAt(b, i, v) == [b EXCEPT ![i] = v]
Place(b, g) == IF Rn(g, 31, 2) = 0 /\ Len(b) > 30 THEN 1 + Rn(g, 32, 30) ELSE 1 + Rn(g, 33, Len(b))
Alter1(b, g) ==
  IF Len(b) = 0 THEN RBytes(Sub(g, 3), 1 + Rn(g, 34, 12))
  ELSE LET i == Place(b, g)
           o == IF b[i] < 256 THEN b[i] ELSE 7
           c == Rn(g, 35, 16)
       IN CASE c \in 0..4 -> SetAt(b, i, Pick(g, 36, Odd))
            [] c \in {5, 6} -> SetAt(b, i, (o + (IF Rn(g, 37, 2) = 0 THEN 1 ELSE 255)) % 256)
            [] c \in {7, 8} -> SetAt(b, i, (o + 2 ^ Rn(g, 37, 8)) % 256)
            [] c = 9 -> SetAt(b, i, Rn(g, 36, 256))
            [] c = 10 -> SubSeq(b, 1, i - 1) \o <<Pick(g, 36, Odd)>> \o SubSeq(b, i, Len(b))
            [] c = 11 -> SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
            [] c = 12 -> b \o RBytes(Sub(g, 3), 1 + Rn(g, 37, 12))
            [] c = 13 -> SubSeq(b, 1, i - 1) \o EBytes(Sub(g, 3), 8) \o SubSeq(b, i + 8, Len(b))
            [] c = 14 -> SubSeq(b, 1, i - 1) \o EBytes(Sub(g, 3), IF Len(b) - i < 20 THEN Len(b) - i + 1 ELSE 21) \o SubSeq(b, i + 21, Len(b))
            [] OTHER -> SubSeq(b, 1, i)
RECURSIVE Alter(_, _, _)
Alter(b, g, n) == IF n = 0 THEN b ELSE Alter(TLCEval(Alter1(b, Sub(g, n))), g, n - 1)

Types == <<2, 3, 4, 5, 13, 14, 15, 16, 19, 23, 24, 25, 27, 29, 30, 31, 32, 33, 35, 38, 160, 161, 162, 163, 164, 0, 255>>
Victim(g, id) ==
  LET c == Rn(g, 41, 10) IN
  CASE c \in 0..2 -> RMap(g, id, Decls(g, Pick(g, 42, <<1, 2, 3, 5, 9>>), AllKinds))
    [] c \in 3..6 /\ HasDef(id) -> RRows(g, id, DefOf(id), Rn(g, 43, 2) = 0, 1 + Rn(g, 44, 3))
    [] c = 7 -> FdeEv(RText(Sub(g, 9), 6), Pick(g, 8, <<27, 40, 164, 171>>), Pick(g, 12, <<0, 1, -1>>), g)
    [] OTHER -> Misc(g)
(* after something that may have been taken for a format description or for a table definition
   nothing of that kind is known, until the stream says so again *)
DoCorrupt(g, id) ==
  \E v \in {Victim(g, id)} :
  \E t \in {IF OneIn(g, 45, 6) THEN Pick(g, 46, Types) ELSE v.t} :
  \* now and then hardly anything of the body or of the checksum is left
  \E stub \in {OneIn(g, 51, 8)} :
  \E it \in {Item([t |-> t, b |-> IF stub THEN RBytes(Sub(g, 4), Rn(g, 52, 8)) ELSE Alter(v.b, Sub(g, 47), 1 + Rn(g, 48, 3))], g,
                  IF stub THEN 0 ELSE IF t = T_FDE THEN 1 ELSE alg, <<"any">>)} :
    IF t = T_FDE
    THEN \E a \in {Rn(g, 49, 2)} : \E f \in {FdeEv(RText(Sub(g, 9), 6), 40, a, Sub(g, 50))} :
           cur' = cur \o <<it, Item(f, Sub(g, 2), 1, Ok(f))>> /\ alg' = a /\ UNCHANGED tabs
    ELSE Emit(it) /\ UNCHANGED alg /\ tabs' = IF t = T_TMAP THEN <<>> ELSE tabs

Step20(g) ==
  LET c == Rn(g, 10, 12)  id == Pick(g, 13, Ids) IN
  IF c = 0 /\ Rn(g, 14, 3) = 0 THEN NewStream(g)
  ELSE /\ UNCHANGED segs
       /\ CASE c \in {1, 2} -> DoMap(g, id, Decls(g, Pick(g, 18, <<1, 2, 3, 5, 9>>), AllKinds), Rn(g, 15, 2) = 0)
            [] c \in 3..5 /\ HasDef(id) -> DoRows(g, id, Rn(g, 16, 2) = 0, 1 + Rn(g, 17, 2))
            [] c = 6 -> Plain(Misc(g), g)
            [] OTHER -> DoCorrupt(g, id)

Step ==
  /\ ph = "run" /\ k <= STEPS
  /\ k' = k + 1
  /\ LET g == Sub(s, 100 + k) IN
     CASE MIX = "C10" -> Step10(g) [] MIX = "C11" -> Step11(g) [] MIX = "C12" -> Step12(g)
       [] MIX = "C13" -> Step13(g) [] MIX = "C14" -> Step14(g) [] MIX = "C15" -> Step15(g)
       [] MIX = "C20" -> Step20(g)
  /\ ghost' = IF Len(cur') > 0 THEN <<alg, cur'[Len(cur')].c, tabs>> ELSE <<>>
  /\ UNCHANGED <<ph, s, live, nego>>

Finish ==
  /\ ph = "run" /\ k > STEPS
  /\ CSVWrite("%1$s", <<ToJson([live |-> live, nego |-> nego, segs |-> Append(segs, cur)])>>, IOEnv.OUT)
  /\ ph' = "done" /\ UNCHANGED <<s, k, live, nego, alg, tabs, segs, cur, ghost>>

Next == Seed \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- what TLC checks on every generated state ---- *)
(* the last definition sent for an id is the one in force, and is the only one *)
OneDefPerId == \A i, j \in DOMAIN tabs : tabs[i][1] = tabs[j][1] => i = j
(* every event length in the header is the real one *)
LengthOk == \A i \in DOMAIN cur :
   LET it == cur[i] IN it.h[10] + 256 * it.h[11] + 65536 * it.h[12] = 19 + BLen(it.b) + 4 * it.c
(* other events than format descriptions carry checksum bytes iff CRC32 is in force *)
AlgInForce == ghost # <<>> /\ cur # <<>> /\ cur[Len(cur)].x[1] # "any" /\ cur[Len(cur)].h[5] # T_FDE => cur[Len(cur)].c = alg
=============================================================================
