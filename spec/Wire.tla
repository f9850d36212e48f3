-------------------------------- MODULE Wire --------------------------------
(* The wire formats of binlog events and column values: for every kind of
   item one operator that gives both the bytes a server logs and the
   projection (the observation) the client has to report.  Wide numbers are
   byte sequences (little endian), text is the sequence of its bytes.

   Sources: the MySQL and MariaDB documentation of the replication protocol
   and the servers' own writers, not the client's readers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Rnd

RECURSIVE LE(_, _)
LE(n, k) == IF k = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256, k - 1)
BE(n, k) == Reverse(LE(n, k))

B01(q) == [i \in DOMAIN q |-> IF q[i] THEN 1 ELSE 0]

RECURSIVE CatR(_)
Cat(q) == CatR(TLCEval(q))
CatR(q) == IF Len(q) = 0 THEN <<>>
          ELSE IF Len(q) = 1 THEN q[1]
          ELSE LET m == Len(q) \div 2
               IN  CatR(SubSeq(q, 1, m)) \o CatR(SubSeq(q, m + 1, Len(q)))

(* length encoded integers *)
LenEnc(n) == IF n < 251 THEN <<n>>
             ELSE IF n < 65536 THEN <<252>> \o LE(n, 2)
             ELSE <<253>> \o LE(n, 3)
LenStr(b) == LenEnc(Len(b)) \o b

(* Long runs of one byte are written as a single element: 256 * count + byte,
   in bodies and in reports alike (only runs longer than 1000) *)
RECURSIVE Run(_, _)
Run(n, c) == IF n > 4000000 THEN <<256 * 4000000 + c>> \o Run(n - 4000000, c) ELSE <<256 * n + c>>
BLen(b) == FoldSeq(LAMBDA x, y : y + (IF x < 256 THEN 1 ELSE x \div 256), 0, b)

(* bitmaps of booleans: bit i of byte j, least significant first *)
BitAt(q, k) == IF k <= Len(q) /\ q[k] THEN 1 ELSE 0
Bitmap(q0) ==
  LET q == TLCEval(q0) IN
  TLCEval([j \in 1..((Len(q) + 7) \div 8) |->
     LET o == (j - 1) * 8 IN
       BitAt(q, o+1) + 2*BitAt(q, o+2) + 4*BitAt(q, o+3) + 8*BitAt(q, o+4)
     + 16*BitAt(q, o+5) + 32*BitAt(q, o+6) + 64*BitAt(q, o+7) + 128*BitAt(q, o+8)])
(* most significant first *)
BitmapMsb(q0) ==
  LET q == TLCEval(q0) IN
  TLCEval([j \in 1..((Len(q) + 7) \div 8) |->
     LET o == (j - 1) * 8 IN
       BitAt(q, o+8) + 2*BitAt(q, o+7) + 4*BitAt(q, o+6) + 8*BitAt(q, o+5)
     + 16*BitAt(q, o+4) + 32*BitAt(q, o+3) + 64*BitAt(q, o+2) + 128*BitAt(q, o+1)])

(* n as w bits, most significant first (n < 2^30) *)
RECURSIVE Bits(_, _)
Bits(n, w) == IF w = 0 THEN <<>> ELSE Append(Bits(n \div 2, w - 1), n % 2 = 1)
BitsOf(q) == [i \in DOMAIN q |-> q[i] = 1]

(* little endian byte sequences as big numbers: b * m + a *)
RECURSIVE MulAdd(_, _, _)
MulAdd(b, m, a) == IF Len(b) = 0 THEN <<>>
                   ELSE LET v == b[1] * m + a
                        IN  <<v % 256>> \o MulAdd(Tail(b), m, v \div 256)
Widen(b, n) == b \o [i \in 1..(n - Len(b)) |-> 0]

(***************************************************************************)
(* Event envelope                                                          *)
(***************************************************************************)
(* body: event body without checksum; ck: bytes of checksum that follow.
   np = <<>> means: end position unknown here, use the given bytes *)
Header(ts, type, sid, len, np, fl) == ts \o <<type>> \o sid \o LE(len, 4) \o np \o fl

(* event types *)
T_QUERY == 2   T_STOP == 3   T_ROTATE == 4   T_INTVAR == 5   T_RAND == 13
T_USERVAR == 14   T_FDE == 15   T_XID == 16   T_TMAP == 19
T_HB == 27   T_RQ == 29   T_GTID == 33   T_PREV == 35
T_ANNOTATE == 160   T_MGTID == 162   T_MLIST == 163

(***************************************************************************)
(* Column declarations: records with a field k (kind) and parameters       *)
(***************************************************************************)
ColType(d) ==
  CASE d.k = "tiny" -> 1      [] d.k = "short" -> 2    [] d.k = "long" -> 3
    [] d.k = "float" -> 4     [] d.k = "double" -> 5   [] d.k = "ts" -> 7
    [] d.k = "longlong" -> 8  [] d.k = "int24" -> 9    [] d.k = "date" -> 10
    [] d.k = "time" -> 11     [] d.k = "dt" -> 12      [] d.k = "year" -> 13
    [] d.k = "varchar" -> 15  [] d.k = "bit" -> 16     [] d.k = "ts2" -> 17
    [] d.k = "dt2" -> 18      [] d.k = "time2" -> 19   [] d.k = "json" -> 245
    [] d.k = "dec" -> 246     [] d.k = "blob" -> d.t   [] d.k = "varstring" -> 253
    [] d.k = "char" -> 254    [] d.k = "enum" -> 254   [] d.k = "set" -> 254
    [] d.k = "geom" -> 255

(* CHAR: the two high bits of a length above 255 are folded into the type byte *)
CharByte0(len) == 254 - (IF len \div 256 = 1 THEN 16 ELSE IF len \div 256 = 2 THEN 32
                         ELSE IF len \div 256 = 3 THEN 48 ELSE 0)

(* declaration data as logged *)
MetaBytes(d) ==
  CASE d.k \in {"varchar", "varstring"} -> LE(d.len, 2)
    [] d.k = "bit" -> <<d.n % 8, d.n \div 8>>
    [] d.k = "dec" -> <<d.p, d.s>>
    [] d.k \in {"ts2", "dt2", "time2"} -> <<d.fsp>>
    [] d.k = "blob" -> <<d.n>>
    [] d.k \in {"json", "geom"} -> <<d.n>>
    [] d.k = "float" -> <<4>>
    [] d.k = "double" -> <<8>>
    [] d.k = "char" -> <<CharByte0(d.len), d.len % 256>>
    [] d.k = "enum" -> <<247, d.n>>
    [] d.k = "set" -> <<248, d.n>>
    [] OTHER -> <<>>

(* declaration data as reported: one 16 bit number per column *)
MetaVal(d) ==
  CASE d.k \in {"varchar", "varstring"} -> d.len
    [] d.k = "bit" -> (d.n \div 8) * 256 + (d.n % 8)
    [] d.k = "dec" -> d.s * 256 + d.p
    [] d.k \in {"ts2", "dt2", "time2"} -> d.fsp
    [] d.k \in {"blob", "json", "geom"} -> d.n
    [] d.k = "float" -> 4
    [] d.k = "double" -> 8
    [] d.k = "char" -> CharByte0(d.len) * 256 + (d.len % 256)
    [] d.k = "enum" -> 247 * 256 + d.n
    [] d.k = "set" -> 248 * 256 + d.n
    [] OTHER -> 0

NumericKinds == {"tiny", "short", "int24", "long", "longlong", "float", "double", "dec"}
CharKinds == {"varchar", "varstring", "char", "blob"}
EnumSetKinds == {"enum", "set"}

(***************************************************************************)
(* Values: record b (bytes in the row image), v (reported value)           *)
(***************************************************************************)
Val(b, v) == TLCEval([b |-> b, v |-> v])

VInt(tag, s, n, w) == LET x == EBytes(s, n) IN Val(x, <<tag, Widen(x, w)>>)

(* IEEE numbers: any bits but an all-ones exponent (NaN and infinity are not stored) *)
FixExp(x) == IF x[Len(x)] % 128 = 127 THEN [x EXCEPT ![Len(x)] = x[Len(x)] - 1] ELSE x
VFloat(tag, s, n) == LET x == FixExp(EBytes(s, n)) IN Val(x, <<tag, x>>)

(* ------------------------------ DECIMAL ------------------------------ *)
DigBytes == <<1, 1, 2, 2, 3, 3, 4, 4, 4>>
RECURSIVE DigNum(_)
DigNum(q) == IF Len(q) = 0 THEN 0 ELSE DigNum(SubSeq(q, 1, Len(q) - 1)) * 10 + q[Len(q)]
Group(q) == IF Len(q) = 0 THEN <<>> ELSE BE(DigNum(q), DigBytes[Len(q)])
RECURSIVE GroupsL(_)      \* groups of nine from the left (fraction)
GroupsL(q) == IF Len(q) <= 9 THEN Group(q) ELSE Group(SubSeq(q, 1, 9)) \o GroupsL(SubSeq(q, 10, Len(q)))
DecInt(q) == LET r == Len(q) % 9 IN Group(SubSeq(q, 1, r)) \o GroupsL(SubSeq(q, r + 1, Len(q)))
DecBytes(neg, ip, fp) ==
  LET raw == TLCEval(DecInt(ip) \o GroupsL(fp))
      inv == IF neg THEN [i \in DOMAIN raw |-> 255 - raw[i]] ELSE raw
  IN  [inv EXCEPT ![1] = (inv[1] + 128) % 256]
RECURSIVE StripZ(_)
StripZ(q) == IF Len(q) > 0 /\ q[1] = 0 THEN StripZ(Tail(q)) ELSE q
DecText(neg, ip, fp) ==
  LET i0 == StripZ(ip)
      i1 == IF Len(i0) = 0 THEN <<0>> ELSE i0
      asc(q) == [i \in DOMAIN q |-> 48 + q[i]]
  IN  (IF neg THEN <<45>> ELSE <<>>) \o asc(i1)
      \o (IF Len(fp) > 0 THEN <<46>> \o asc(fp) ELSE <<>>)
Digits(s, n) ==
  CASE Rn(s, 801, 8) = 0 -> [i \in 1..n |-> 0]
    [] Rn(s, 801, 8) = 1 -> [i \in 1..n |-> 9]
    [] Rn(s, 801, 8) = 2 -> [i \in 1..n |-> IF i = n THEN 1 ELSE 0]
    [] Rn(s, 801, 8) = 3 -> [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
    [] Rn(s, 801, 8) = 4 -> LET z == Rn(s, 802, n + 1) IN [i \in 1..n |-> IF i <= z THEN 0 ELSE Rn(s, i, 10)]
    [] OTHER -> [i \in 1..n |-> Rn(s, i, 10)]
DecVal(neg, ip, fp) == Val(DecBytes(neg, ip, fp), <<"dec", DecText(neg, ip, fp)>>)
VDec(d, s) ==
  LET ip == Digits(Sub(s, 1), d.p - d.s)
      fp == Digits(Sub(s, 2), d.s)
      zero == StripZ(ip) = <<>> /\ StripZ(fp) = <<>>
      neg == ~zero /\ Rn(s, 3, 2) = 0
  IN  DecVal(neg, ip, fp)

(* ------------------------------ text, blobs ------------------------------ *)
(* a length between 0 and max, the ends and the encoding limits over-represented *)
LenUpTo(s, max) ==
  LET c == CASE Rn(s, 701, 8) = 0 -> 0
             [] Rn(s, 701, 8) = 1 -> max
             [] Rn(s, 701, 8) = 2 -> 255
             [] Rn(s, 701, 8) = 3 -> 256
             [] Rn(s, 701, 8) = 4 -> 128
             [] OTHER -> Rn(s, 702, 20)
  IN  IF c > max \/ c > 2000 THEN Rn(s, 703, IF max < 60 THEN max + 1 ELSE 60) ELSE c
StrVal(max, n, t) == Val((IF max > 255 THEN LE(n, 2) ELSE <<n>>) \o t, <<"str", t>>)
BlobVal(w, n, t) == Val(LE(n, w) \o t, <<"blob", t>>)
VStr(s, max) == LET long == max > 20000 /\ OneIn(s, 704, 4)
                    n == IF long THEN Pick(s, 705, <<max, max - 1, max \div 2, 16384>>) ELSE LenUpTo(s, max)
                    t == IF long THEN Run(n, 33 + Rn(s, 706, 94)) ELSE RText(Sub(s, 4), n)
                IN  StrVal(max, n, t)
VBlob(s, w) == LET long == w > 1 /\ OneIn(s, 704, 8)
                   n == IF ~long THEN LenUpTo(s, IF w = 1 THEN 255 ELSE 1000)
                        ELSE IF w = 2 THEN Pick(s, 705, <<65535, 32768, 65534>>) ELSE Pick(s, 705, <<65536, 65535, 70001, 131073, 260000>>)
                   t == IF long THEN Run(n, Rn(s, 706, 256)) ELSE IF n > 64 THEN [i \in 1..n |-> (i * 7 + Rn(s, 1, 256)) % 256] ELSE RBytes(Sub(s, 4), n)
               IN  BlobVal(w, n, t)

(* ------------------------------ BIT, ENUM, SET ------------------------------ *)
BitVal(n, bits) ==
  LET full == [i \in 1..(((n + 7) \div 8) * 8 - n) |-> 0] \o bits
  IN  Val(BitmapMsb(BitsOf(full)), <<"bit", bits>>)
VBit(d, s) ==
  LET e == Rn(s, 801, 4)
      bits == [i \in 1..d.n |-> IF e = 0 THEN 1 ELSE IF e = 1 THEN (IF i = 1 THEN 1 ELSE 0)
                                ELSE Rn(s, i, 2)]
  IN  BitVal(d.n, bits)
VEnum(d, s) == LET x == EBytes(s, d.n) IN Val(x, <<"enum", Widen(x, 4)>>)
VSet(d, s) == LET x == EBytes(s, d.n) IN Val(x, <<"set", Widen(x, 8)>>)

(* ------------------------------ dates and times ------------------------------ *)
RYear(s) == Pick(s, 601, <<0, 1, 1000, 1969, 1970, 1999, 2000, 2024, 2038, 9999, Rn(s, 602, 10000)>>)
RMonth(s) == Pick(s, 603, <<0, 1, 12, 1 + Rn(s, 604, 12)>>)
RDay(s) == Pick(s, 605, <<0, 1, 28, 31, 1 + Rn(s, 606, 31)>>)
RHour(s) == Pick(s, 607, <<0, 23, 16, Rn(s, 608, 24)>>)
RMin(s) == Pick(s, 609, <<0, 59, 32, Rn(s, 610, 60)>>)
RSec(s) == Pick(s, 611, <<0, 59, 32, Rn(s, 612, 60)>>)
RThour(s) == Pick(s, 613, <<0, 838, 255, 256, 511, 512, Rn(s, 614, 839)>>)

DateVal(y, m, d) == Val(LE(y * 512 + m * 32 + d, 3), <<"date", y, m, d>>)
TimeVal(h, m, x) == Val(LE(h * 10000 + m * 100 + x, 3), <<"time", h, m, x, 0>>)
YearVal(b) == Val(<<b>>, <<"year", IF b = 0 THEN 0 ELSE 1900 + b>>)
VDate(s) == LET y == RYear(s)  m == RMonth(s)  d == RDay(s)
            IN  DateVal(y, m, d)
VTime(s) == LET h == RThour(s) m == RMin(s) x == RSec(s)
            IN  TimeVal(h, m, x)
VYear(s) == LET b == Pick(s, 601, <<0, 1, 70, 100, 255, Rn(s, 602, 256)>>)
            IN  YearVal(b)
DtNum(y, m, d, h, i, x) ==
  MulAdd(MulAdd(MulAdd(MulAdd(MulAdd(LE(y, 8), 100, m), 100, d), 100, h), 100, i), 100, x)
DtVal(y, m, d, h, i, x) == Val(DtNum(y, m, d, h, i, x), <<"dt", y, m, d, h, i, x, 0>>)
VDt(s) == LET y == RYear(s)  m == RMonth(s)  d == RDay(s)  h == RHour(s)  i == RMin(s)  x == RSec(s)
          IN  DtVal(y, m, d, h, i, x)
VTs(s) == LET x == EBytes(s, 4) IN Val(x, <<"ts", Widen(x, 8), 0>>)

(* fractional seconds: microseconds with fsp digits, stored in (fsp+1)/2 bytes *)
Pow10 == <<10, 100, 1000, 10000, 100000, 1000000>>
FracDigits(s, fsp) ==   \* number of 10^-fsp units
  IF fsp = 0 THEN 0
  ELSE CASE Rn(s, 501, 4) = 0 -> 0
         [] Rn(s, 501, 4) = 1 -> Pow10[fsp] - 1
         [] OTHER -> DigNum([i \in 1..fsp |-> Rn(s, 510 + i, 10)])
Micros(u, fsp) == IF fsp = 0 THEN 0 ELSE IF fsp = 6 THEN u ELSE u * Pow10[6 - fsp]
FracBytes(mic, fsp) ==
  LET n == (fsp + 1) \div 2
  IN  CASE n = 0 -> <<>>
        [] n = 1 -> BE(mic \div 10000, 1)
        [] n = 2 -> BE(mic \div 100, 2)
        [] n = 3 -> BE(mic, 3)
Time2Val(h, m, x, mic, fsp) ==
  Val(BE(8388608 + h * 4096 + m * 64 + x, 3) \o FracBytes(mic, fsp), <<"time", h, m, x, mic \div 1000>>)
Ts2Val(sec, mic, fsp) == Val(Reverse(sec) \o FracBytes(mic, fsp), <<"ts", Widen(sec, 8), mic \div 1000>>)
Dt2Val(y, m, a, h, i, x, mic, fsp) ==
  LET bits == <<TRUE>> \o Bits(y * 13 + m, 17) \o Bits(a, 5) \o Bits(h, 5) \o Bits(i, 6) \o Bits(x, 6)
  IN  Val(BitmapMsb(bits) \o FracBytes(mic, fsp), <<"dt", y, m, a, h, i, x, mic \div 1000>>)
VTime2(d, s) ==
  LET h == RThour(s) m == RMin(s) x == RSec(s)
      mic == Micros(FracDigits(s, d.fsp), d.fsp)
  IN  Time2Val(h, m, x, mic, d.fsp)
VTs2(d, s) ==
  LET sec == EBytes(s, 4)
      mic == Micros(FracDigits(s, d.fsp), d.fsp)
  IN  Ts2Val(sec, mic, d.fsp)
VDt2(d, s) ==
  LET y == RYear(s)  m == RMonth(s)  a == RDay(s)  h == RHour(s)  i == RMin(s)  x == RSec(s)
      mic == Micros(FracDigits(s, d.fsp), d.fsp)
  IN  Dt2Val(y, m, a, h, i, x, mic, d.fsp)

(* a negative TIME: declared unsupported, has to be an error *)
NegTime(d, s) ==
  LET h == RThour(s) m == RMin(s) x == 1 + Rn(s, 615, 59)
  IN  IF d.k = "time"
      THEN LE(16777216 - (h * 10000 + m * 100 + x), 3)
      ELSE BE(8388608 - (h * 4096 + m * 64 + x), 3) \o [i \in 1..((d.fsp + 1) \div 2) |-> 0]

Value(d, s) ==
  CASE d.k = "tiny" -> VInt("tiny", s, 1, 1)
    [] d.k = "short" -> VInt("small", s, 2, 2)
    [] d.k = "int24" -> VInt("medium", s, 3, 4)
    [] d.k = "long" -> VInt("int", s, 4, 4)
    [] d.k = "longlong" -> VInt("big", s, 8, 8)
    [] d.k = "float" -> VFloat("float", s, 4)
    [] d.k = "double" -> VFloat("double", s, 8)
    [] d.k = "dec" -> VDec(d, s)
    [] d.k \in {"varchar", "varstring", "char"} -> VStr(s, d.len)
    [] d.k = "blob" -> VBlob(s, d.n)
    [] d.k \in {"json", "geom"} -> VBlob(s, d.n)
    [] d.k = "bit" -> VBit(d, s)
    [] d.k = "enum" -> VEnum(d, s)
    [] d.k = "set" -> VSet(d, s)
    [] d.k = "date" -> VDate(s)
    [] d.k = "time" -> VTime(s)
    [] d.k = "year" -> VYear(s)
    [] d.k = "dt" -> VDt(s)
    [] d.k = "ts" -> VTs(s)
    [] d.k = "time2" -> VTime2(d, s)
    [] d.k = "ts2" -> VTs2(d, s)
    [] d.k = "dt2" -> VDt2(d, s)

(* ------------------------------ random declarations ------------------------------ *)
AllKinds == << "tiny", "short", "int24", "long", "longlong", "float", "double", "dec", "dec",
               "varchar", "varchar", "varstring", "char", "char", "blob", "json", "geom", "bit", "bit",
               "enum", "set", "date", "time", "year", "dt", "ts", "time2", "ts2", "dt2" >>
Decl(s, kinds) ==
  LET k == Pick(s, 1, kinds)
  IN CASE k \in {"varchar", "varstring"} ->
            [k |-> k, len |-> Pick(s, 2, <<0, 1, 20, 100, 254, 255, 256, 257, 1000, 16383, 21844, 65532, 65535, 1 + Rn(s, 3, 300)>>)]
       [] k = "char" ->
            [k |-> k, len |-> Pick(s, 2, <<0, 1, 20, 254, 255, 256, 257, 511, 512, 767, 768, 1020, Rn(s, 3, 1021)>>)]
       [] k = "bit" -> [k |-> k, n |-> Pick(s, 2, <<1, 7, 8, 9, 15, 16, 17, 32, 63, 64, 1 + Rn(s, 3, 64)>>)]
       [] k = "dec" ->
            LET p == Pick(s, 2, <<1, 9, 10, 18, 19, 27, 38, 65, 1 + Rn(s, 3, 65)>>)
                m == IF p < 30 THEN p ELSE 30
                c == Pick(s, 4, <<0, 2, m, Rn(s, 5, m + 1), Rn(s, 6, m + 1)>>)
            IN  [k |-> k, p |-> p, s |-> IF c > m THEN m ELSE c]
       [] k \in {"ts2", "dt2", "time2"} -> [k |-> k, fsp |-> Rn(s, 2, 7)]
       [] k = "blob" -> [k |-> k, t |-> Pick(s, 2, <<252, 252, 252, 252, 249, 250, 251>>), n |-> 1 + Rn(s, 3, 4)]
       [] k \in {"json", "geom"} -> [k |-> k, n |-> 4]
       [] k = "enum" -> [k |-> k, n |-> 1 + Rn(s, 2, 2)]
       [] k = "set" -> [k |-> k, n |-> Pick(s, 2, <<1, 2, 3, 4, 8>>)]
       [] OTHER -> [k |-> k]
Decls(s, n, kinds) == TLCEval([i \in 1..n |-> Decl(Sub(s, i), kinds)])

(***************************************************************************)
(* Row images and row events                                               *)
(***************************************************************************)
(* one image: columns present, null flags per column, values per column *)
Image(decls, present, nulls, vals) ==
  LET idx == SelectSeq(TLCEval([i \in DOMAIN decls |-> i]), LAMBDA i : present[i])
      nb == TLCEval([j \in DOMAIN idx |-> nulls[idx[j]]])
      have == SelectSeq(idx, LAMBDA i : ~nulls[i])
  IN  Bitmap(nb) \o Cat(TLCEval([j \in DOMAIN have |-> vals[have[j]].b]))
ImageObs(decls, present, nulls, vals) ==
  TLCEval([i \in DOMAIN decls |-> IF present[i] /\ ~nulls[i] THEN <<vals[i].v>> ELSE <<>>])

(* a random row: null flags and values *)
RNulls(s, n) ==
  LET e == Rn(s, 401, 6)
  IN  TLCEval([i \in 1..n |-> IF e = 0 THEN FALSE ELSE IF e = 1 THEN TRUE ELSE Rn(s, 410 + i, 3) = 0])
RPresent(s, n) ==
  LET e == Rn(s, 402, 6)
      q == TLCEval([i \in 1..n |-> IF e <= 2 THEN TRUE ELSE Rn(s, 1410 + i, 2) = 0])
  IN  q
(* an image has to have at least one column, as the server never logs rows without any *)
RPresent1(s, n) == LET q == RPresent(s, n)
                   IN  TLCEval(IF \E i \in 1..n : q[i] THEN q ELSE [q EXCEPT ![1 + Rn(s, 403, n)] = TRUE])

RowHead(ver, tid, flags, extra, n) ==
  tid \o LE(flags, 2) \o (IF ver = 2 THEN LE(2 + Len(extra), 2) \o extra ELSE <<>>) \o LenEnc(n)
RowType(op, ver) ==
  (IF ver = 1 THEN 23 ELSE 30) + (CASE op = "write" -> 0 [] op = "update" -> 1 [] op = "delete" -> 2)

(* rows: sequence of [n1, v1, n2, v2] (null flags and values, before and after) *)
RowsEvent(op, ver, tid, flags, extra, decls, p1, p2, rows) ==
  LET n == Len(decls)
      img(r) == Image(decls, p1, r.n1, r.v1) \o (IF op = "update" THEN Image(decls, p2, r.n2, r.v2) ELSE <<>>)
      obs(r) == IF op = "update"
                THEN <<ImageObs(decls, p1, r.n1, r.v1), ImageObs(decls, p2, r.n2, r.v2)>>
                ELSE ImageObs(decls, p1, r.n1, r.v1)
  IN  [t |-> RowType(op, ver),
       b |-> RowHead(ver, tid, flags, extra, n) \o Bitmap(p1)
             \o (IF op = "update" THEN Bitmap(p2) ELSE <<>>)
             \o Cat([j \in DOMAIN rows |-> img(rows[j])]),
       e |-> IF op = "update"
             THEN <<op, tid, flags, n, B01(p1), B01(p2), [j \in DOMAIN rows |-> obs(rows[j])]>>
             ELSE <<op, tid, flags, n, B01(p1), [j \in DOMAIN rows |-> obs(rows[j])]>>]

RRow(s, decls) ==
  LET n == Len(decls)
  IN  [n1 |-> RNulls(Sub(s, 1), n), v1 |-> TLCEval([i \in 1..n |-> Value(decls[i], Sub(Sub(s, 2), i))]),
       n2 |-> RNulls(Sub(s, 3), n), v2 |-> TLCEval([i \in 1..n |-> Value(decls[i], Sub(Sub(s, 4), i))])]

RRows(s, tid, decls0, full, nrows) ==
  LET decls == TLCEval(decls0)
      op == Pick(s, 1, <<"write", "update", "delete">>)
      ver == 1 + Rn(s, 2, 2)
      n == Len(decls)
      all == [i \in 1..n |-> TRUE]
      p1 == IF full THEN all ELSE RPresent1(Sub(s, 3), n)
      p2 == IF full THEN all ELSE RPresent1(Sub(s, 4), n)
      extra == IF ver = 2 /\ Rn(s, 5, 3) = 0 THEN RBytes(Sub(s, 5), Pick(s, 6, <<1, 5, 20, 251, 255, 300>>)) ELSE <<>>
      fl == Pick(s, 7, <<0, 1, 1, 1, 2, 4, 8, 9, 65535>>)
  IN  RowsEvent(op, ver, tid, fl, extra, decls, p1, p2, TLCEval([j \in 1..nrows |-> RRow(Sub(Sub(s, 8), j), decls)]))

(***************************************************************************)
(* Table map events with optional column metadata                          *)
(***************************************************************************)
Opt(x) == <<x>>
None == <<>>

(* the optional fields: records c (code), b (payload), x (expected) *)
ColIdx(decls, kinds) == SelectSeq(TLCEval([i \in DOMAIN decls |-> i - 1]), LAMBDA i : decls[i + 1].k \in kinds)
RColl(s, i) == Pick(s, i, <<8, 33, 45, 63, 224, 250, 251, 252, 253, 254, 255, 256, 305, 2048, 46, 65535, 65536, 70001>>)
Ints(q) == Cat([i \in DOMAIN q |-> LenEnc(q[i])])
IntsObs(q) == [i \in DOMAIN q |-> LE(q[i], 4)]
Pairs(q) == Cat([i \in DOMAIN q |-> LenEnc(q[i][1]) \o LenEnc(q[i][2])])
PairsObs(q) == [i \in DOMAIN q |-> <<LE(q[i][1], 4), LE(q[i][2], 4)>>]
Strs(q) == Cat([i \in DOMAIN q |-> LenStr(q[i])])
StrLists(q) == Cat([i \in DOMAIN q |-> LenEnc(Len(q[i])) \o Strs(q[i])])

RSubset(s, q) == SelectSeq(q, LAMBDA x : Rn(s, 20 + x, 2) = 0)
RName(s, i) == RText(Sub(s, i), Pick(s, 100 + i, <<1, 2, 5, 12, 64, 1 + Rn(s, 200 + i, 60), IF OneIn(s, 150 + i, 3) THEN Pick(s, 99, <<250, 251, 252, 256>>) ELSE 7>>))

MetaField(c, s, decls0) ==
  LET decls == TLCEval(decls0)
      n == Len(decls)
      nums == ColIdx(decls, NumericKinds)
      chars == ColIdx(decls, CharKinds)
      ess == ColIdx(decls, EnumSetKinds)
      dcs(idx) == LET r == TLCEval(RSubset(s, idx))
                      q == TLCEval([j \in DOMAIN r |-> <<r[j], RColl(s, 30 + j)>>])
                      d == RColl(s, 2)
                  IN  [c |-> c, b |-> LenEnc(d) \o Pairs(q), x |-> <<LE(d, 4), PairsObs(q)>>]
      ints(q) == [c |-> c, b |-> Ints(q), x |-> IntsObs(q)]
      bits(q) == [c |-> c, b |-> BitmapMsb(q), x |-> B01(q)]
      vals(k) == LET idx == ColIdx(decls, {k})
                     q == TLCEval([j \in DOMAIN idx |->
                             [m \in 1..Pick(s, 40 + j, <<1, 2, 3, 9, 63, 64, IF k = "enum" /\ OneIn(s, 45, 4) THEN 300 ELSE 5>>) |->
                                RText(Sub(Sub(s, j), m), IF m < 3 /\ OneIn(s, 46 + m, 6) THEN Pick(s, 48, <<250, 251, 252, 256, 1020>>)
                                                         ELSE Rn(s, 50 * j + m, 7))]])
                 IN  [c |-> c, b |-> StrLists(q), x |-> q]
  IN CASE c = 1 -> bits([i \in DOMAIN nums |-> Rn(s, 60 + i, 2) = 0])
       [] c = 2 -> dcs(chars)
       [] c = 3 -> ints([i \in DOMAIN chars |-> RColl(s, 30 + i)])
       [] c = 4 -> LET q == TLCEval([i \in 1..n |-> RName(s, i)]) IN [c |-> c, b |-> Strs(q), x |-> q]
       [] c = 5 -> vals("set")
       [] c = 6 -> vals("enum")
       [] c = 7 -> ints([i \in DOMAIN ColIdx(decls, {"geom"}) |-> Rn(s, 70 + i, 8)])
       [] c = 8 -> ints(Shuffle(s, RSubset(s, [i \in 1..n |-> i - 1])))
       [] c = 9 -> LET q == RSubset(s, [i \in 1..n |-> i - 1])
                       r == [j \in DOMAIN q |-> <<q[j], Pick(s, 80 + j, <<0, 10, 250, 251, 255, 768, 65535, 65536, 70000, 16777215>>)>>]
                   IN  [c |-> c, b |-> Pairs(r), x |-> PairsObs(r)]
       [] c = 10 -> dcs(ess)
       [] c = 11 -> ints([i \in DOMAIN ess |-> RColl(s, 30 + i)])
       [] c = 12 -> bits([i \in 1..n |-> Rn(s, 90 + i, 4) # 0])

(* fields that a server logs only when there is a column they speak about *)
FieldApplies(c, decls) ==
  CASE c = 1 -> ColIdx(decls, NumericKinds) # <<>>
    [] c \in {2, 3} -> ColIdx(decls, CharKinds) # <<>>
    [] c = 5 -> ColIdx(decls, {"set"}) # <<>>
    [] c = 6 -> ColIdx(decls, {"enum"}) # <<>>
    [] c = 7 -> ColIdx(decls, {"geom"}) # <<>>
    [] c \in {10, 11} -> ColIdx(decls, EnumSetKinds) # <<>>
    [] OTHER -> TRUE

(* fields: sequence of field records in log order *)
TableMap(tid, flags, db, tbl, decls, nulls, fields) ==
  LET n == Len(decls)
      mb == Cat([i \in DOMAIN decls |-> MetaBytes(decls[i])])
      tm == Cat([i \in DOMAIN fields |-> <<fields[i].c>> \o LenEnc(Len(fields[i].b)) \o fields[i].b])
      get(c) == LET q == SelectSeq(fields, LAMBDA f : f.c = c) IN IF q = <<>> THEN None ELSE Opt(q[1].x)
  IN  [t |-> T_TMAP,
       b |-> tid \o LE(flags, 2) \o <<Len(db)>> \o db \o <<0>> \o <<Len(tbl)>> \o tbl \o <<0>>
             \o LenEnc(n) \o [i \in 1..n |-> ColType(decls[i])] \o LenEnc(Len(mb)) \o mb
             \o Bitmap(nulls) \o tm,
       e |-> <<"tmap", tid, db, tbl, [i \in 1..n |-> ColType(decls[i])], [i \in 1..n |-> MetaVal(decls[i])],
               B01(nulls),
               IF fields = <<>> THEN None ELSE Opt([c \in 1..12 |-> get(c)])>>]

(* a plain table map: short names, everything nullable, no optional metadata *)
PlainMap(s, tid, decls) ==
  TableMap(tid, 1, RIdent(Sub(s, 1), 1 + Rn(s, 1, 8)), RIdent(Sub(s, 2), 1 + Rn(s, 2, 8)), decls,
           [i \in DOMAIN decls |-> TRUE], <<>>)

RNameLen(s, i) == Pick(s, i, <<1, 2, 8, 20, 64, 200, 255>>)
RMap(s, tid, decls0) ==
  LET decls == TLCEval(decls0)
      codes == SelectSeq(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>,
                         LAMBDA c : FieldApplies(c, decls) /\ Rn(s, 300 + c, 2) = 0)
      order == IF Rn(s, 320, 2) = 0 THEN codes ELSE Shuffle(s, codes)
      fields == IF Rn(s, 321, 5) = 0 THEN <<>>
                ELSE TLCEval([i \in DOMAIN order |-> MetaField(order[i], Sub(s, order[i]), decls)])
  IN  TableMap(tid, Rn(s, 322, 2), RText(Sub(s, 33), RNameLen(s, 323)), RText(Sub(s, 34), RNameLen(s, 324)), decls,
               [i \in DOMAIN decls |-> Rn(s, 330 + i, 2) = 0], fields)

(***************************************************************************)
(* The other events                                                        *)
(***************************************************************************)
Ev(t, b, e) == TLCEval([t |-> t, b |-> b, e |-> e])

(* text of n bytes, or now and then very long text *)
RLongText(s, n) == IF OneIn(s, 909, 12) THEN Run(Pick(s, 910, <<65530, 65536, 70000, 300000>>), 33 + Rn(s, 911, 94)) ELSE RText(s, n)

QueryEv(thread, dur, err, sv, db, sql) ==
  Ev(T_QUERY, thread \o dur \o <<Len(db)>> \o LE(err, 2) \o LE(BLen(sv), 2) \o sv \o db \o <<0>> \o sql,
     <<"query", thread, dur, err, sv, db, sql>>)
RQuery(s) == QueryEv(EBytes(Sub(s, 1), 4), EBytes(Sub(s, 2), 4), Pick(s, 1, <<0, 1, 255, 256, 1062, 65535>>),
                     IF OneIn(s, 6, 12) THEN Run(Pick(s, 7, <<65535, 32768>>), 7) ELSE RBytes(Sub(s, 3), Pick(s, 2, <<0, 1, 45, 255, 256, 300>>)),
                     RText(Sub(s, 4), Pick(s, 3, <<0, 1, 4, 64, 255>>)),
                     RLongText(Sub(s, 5), Pick(s, 4, <<0, 1, 5, 63, 255, 256, 700>>)))
XidEv(x) == Ev(T_XID, x, <<"xid", x>>)
RXid(s) == XidEv(EBytes(s, 8))
RIntvar(s) == LET t == Rn(s, 1, 3) x == EBytes(s, 8) IN Ev(T_INTVAR, <<t>> \o x, <<"intvar", t, x>>)
RotateEv(pos, name) == Ev(T_ROTATE, pos \o name, <<"rotate", pos, name>>)
RRotate(s) == RotateEv(EBytes(s, 8), RText(Sub(s, 1), Pick(s, 1, <<1, 16, 60, 255, 511>>)))
HbEv(name) == Ev(T_HB, name, <<"heartbeat", name>>)
RHb(s) == HbEv(RText(Sub(s, 1), Pick(s, 1, <<1, 16, 60, 255>>)))
RRowsQuery(s) ==
  LET q == RLongText(Sub(s, 1), Pick(s, 1, <<0, 1, 30, 63, 255, 256, 600>>))
  IN  IF Rn(s, 2, 2) = 0
      THEN Ev(T_RQ, <<IF BLen(q) < 256 THEN BLen(q) ELSE 255>> \o q, <<"rowsquery", q>>)   \* first byte: length, or what is left of it
      ELSE Ev(T_ANNOTATE, q, <<"rowsquery", q>>)

(* user variables: types 0 string, 1 real, 2 int, 4 decimal; only integers carry the flags byte *)
UserVarEv(name, type, coll, val, flags, withflags) ==
  Ev(T_USERVAR, LE(Len(name), 4) \o name \o <<0, type>> \o coll \o LE(BLen(val), 4) \o val
                \o (IF withflags THEN <<flags>> ELSE <<>>),
     <<"uservar", name, <<type, coll, val, IF withflags THEN flags ELSE 0>>>>)
UserVarNull(name) == Ev(T_USERVAR, LE(Len(name), 4) \o name \o <<1>>, <<"uservar", name, <<>>>>)
Low(q) == [i \in DOMAIN q |-> q[i] % 128]
RUserVar(s) ==
  LET name == RText(Sub(s, 1), Pick(s, 1, <<1, 4, 20, 64>>))
      coll == LE(RColl(s, 2), 4)
      k == Rn(s, 3, 6)
  IN CASE k = 0 -> UserVarNull(name)
       [] k = 1 -> UserVarEv(name, 2, coll, Low(EBytes(Sub(s, 2), 8)), Rn(s, 4, 2), TRUE)
       [] k = 2 -> UserVarEv(name, 1, coll, Low(EBytes(Sub(s, 2), 8)), 0, FALSE)
       [] k = 3 -> UserVarEv(name, 0, coll, RText(Sub(s, 3), Pick(s, 5, <<0, 1, 10, 255, 256, 700>>)), Rn(s, 4, 2), TRUE)
       [] OTHER -> UserVarEv(name, 0, coll, RLongText(Sub(s, 3), Pick(s, 5, <<0, 1, 10, 255, 256, 700>>)), 0, FALSE)

(* GTIDs *)
RGtid(s) == LET u == RBytes(Sub(s, 1), 16)  n == EBytes(Sub(s, 2), 8)  f == Rn(s, 1, 2)
                tail == RBytes(Sub(s, 3), Pick(s, 2, <<0, 17, 33>>))   \* newer servers: logical clock etc.
            IN  Ev(T_GTID, <<f>> \o u \o n \o tail, <<"mgtid", f, u, n>>)
(* previous gtids: intervals are half open on the wire *)
RPrev(s) ==
  LET k == IF OneIn(s, 7, 10) THEN 20 ELSE Rn(s, 1, 4)
      us == [i \in 1..k |-> <<12 * i>> \o RBytes(Sub(s, i), 15)]
      ivn(i) == IF i = 1 /\ OneIn(s, 8, 6) THEN Pick(s, 9, <<255, 256, 257, 300>>) ELSE 1 + Rn(s, 10 + i, 3)
      iv(i) == [j \in 1..ivn(i) |->
                  LET a == 1000 * j + Rn(s, 100 * i + j, 400)
                      z == a + 1 + Rn(s, 200 * i + j, 400)
                      hi == IF Rn(s, 300 + i, 2) = 0 THEN <<0, 0, 0, 0>> ELSE RBytes(Sub(s, 60 + i), 3) \o <<Rn(s, 6, 127)>>
                  IN  <<LE(a, 4) \o hi, LE(z, 4) \o hi, LE(z - 1, 4) \o hi>>]
      enc(i) == us[i] \o LE(ivn(i), 8) \o Cat([j \in 1..ivn(i) |-> iv(i)[j][1] \o iv(i)[j][2]])
      obs == [i \in 1..k |-> <<us[i], [j \in 1..ivn(i) |-> <<iv(i)[j][1], iv(i)[j][3]>>]>>]
      order == Shuffle(s, [i \in 1..k |-> i])
  IN  Ev(T_PREV, LE(k, 8) \o Cat([i \in 1..k |-> enc(order[i])]), <<"mprev", obs>>)
(* MariaDB: the server id of the GTID is the server id of the header *)
MGtidEv(s, sid) ==
  LET d == EBytes(Sub(s, 1), 4)  q == EBytes(Sub(s, 2), 8)
      f == Pick(s, 1, <<0, 1, 2, 4, 8, 12, 41, 64, 128, 255>>)
      tail == IF f = 2 \/ f % 4 >= 2 THEN RBytes(Sub(s, 3), 8)      \* commit id of a group commit
              ELSE [i \in 1..6 |-> 0]
  IN  Ev(T_MGTID, q \o d \o <<f>> \o tail, <<"agtid", d, sid, q, f>>)
RMList(s) ==
  LET k == Pick(s, 1, <<0, 1, 2, 5, 8, IF OneIn(s, 3, 2) THEN Pick(s, 4, <<255, 256, 300>>) ELSE 3>>)
      \* a domain is listed once per server that logged in it, the latest last
      rep == IF Rn(s, 5, 2) = 0 THEN 1 ELSE 2
      g == [i \in 1..k |-> <<LE(i \div rep, 2) \o RBytes(Sub(s, i \div rep), 2), EBytes(Sub(s, 20 + i), 4), EBytes(Sub(s, 40 + i), 8)>>]
      fl == Pick(s, 2, <<0, 0, 16, 32, 240>>)                     \* upper four bits: flags
  IN  Ev(T_MLIST, LE(k, 3) \o <<fl>> \o Cat([i \in 1..k |-> g[i][1] \o g[i][2] \o g[i][3]]), <<"alist", g>>)

(* event types the client has no decoder for *)
RUnknown(s) == Ev(Pick(s, 1, <<0, 1, 3, 6, 7, 8, 13, 17, 18, 26, 28, 34, 36, 37, 39, 40, 161, 164, 165, 166, 255>>),
                  RBytes(s, Pick(s, 2, <<0, 1, 16, 40, 300>>)), <<"unknown">>)

(* Format description: nt event types are described; alg = -1: a server that predates checksums *)
FdeEv(ver, ntypes, alg, s) ==
  LET vpad == ver \o [i \in 1..(50 - Len(ver)) |-> 0]
      plen == 57 + ntypes
      post == [i \in 1..ntypes |-> IF i = 15 THEN plen % 256 ELSE IF i = 19 THEN 8 ELSE Rn(s, i, 60)]
  IN  Ev(T_FDE, <<4, 0>> \o vpad \o RBytes(s, 4) \o <<19>> \o post \o (IF alg >= 0 THEN <<alg>> ELSE <<>>),
         <<"fde", 4, ver, IF alg >= 0 THEN alg ELSE 0>>)
=============================================================================
