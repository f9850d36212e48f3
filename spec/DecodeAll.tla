------------------------------ MODULE DecodeAll ------------------------------
(* Small domains of Decode's streams in full: where Decode draws at random,
   here every element is taken once.

     C12  every combination of present columns and nulls of tables of up to
          NMAX columns, both row event versions, in inserts and deletes of two
          rows and in updates of one
     C13  every declaration of every column type: all precisions and scales,
          widths, lengths, fractional seconds
     C14  every subset of the optional column metadata fields
     C10, C15  format descriptions of every size, with every algorithm, each
          followed by another event; every event type without a decoder

     C13, C15  text that is not UTF-8
     C20  for every column type and event type, an event to be altered

   A behaviour is one chunk; the data in it are functions of its number.    *)
EXTENDS Decode

CONSTANTS NMAX, ROWS, SALT, PART, PARTS

VARIABLES chunk
avars == <<vars, chunk>>

GenOf(c) == <<1 + ((c * 7) % 30000), 1 + (((c \div 30000) + SALT * 101) % 30000), 1 + ((SALT * 7919 + c) % 30000)>>
LiveOf(c) == c % 2 = 0
NegoOf(c) == IF c % 4 = 0 THEN "CRC32" ELSE "NONE"
AlgOf(c) == IF c % 4 = 0 THEN 1 ELSE 0
ItOf(c, g, ev) == Item(ev, g, AlgOf(c), Ok(ev))

Strict(q) == TLCEval(q)
Bools(n, b) == Strict([i \in 1..n |-> (b \div (2 ^ (i - 1))) % 2 = 1])

(* ---- C12 ---- *)
(* <<n, op, version, present, present after>> *)
Images == Strict(SetToSeq(
   {<<n, op, v, p, p>> : n \in 1..NMAX, op \in {"write", "delete"}, v \in {1, 2}, p \in 1..(2 ^ NMAX - 1)}
   \cup {<<n, "update", v, p, q>> : n \in 1..NMAX, v \in {1, 2}, p \in 1..(2 ^ NMAX - 1), q \in 1..(2 ^ NMAX - 1)}))
ImageOk(x) == x[4] < 2 ^ x[1] /\ x[5] < 2 ^ x[1]
ImageChunk(c) ==
  LET x == Images[c]
      n == x[1]
      d == SmallDecls(GenOf(c), n)
      m == PlainMap(GenOf(c), OneId, d)
      vals(g) == Strict([i \in 1..n |-> Value(d[i], Sub(g, i))])
      row(g, a, b) == [n1 |-> Bools(n, a), v1 |-> vals(Sub(g, 1)), n2 |-> Bools(n, b), v2 |-> vals(Sub(g, 2))]
      one(w) == LET g == Sub(GenOf(c), w)  a == w % (2 ^ n)  b == w \div (2 ^ n)
                    \* two inserted rows, or the two images of a row
                    rows == IF x[2] = "update" THEN <<row(g, a, b)>> ELSE <<row(g, a, 0), row(Sub(g, 9), b, 0)>>
                IN  ItOf(c, g, RowsEvent(x[2], x[3], OneId, 1, <<>>, d, Bools(n, x[4]), Bools(n, x[5]), rows))
  IN  <<ItOf(c, GenOf(c), m)>> \o Strict([w \in 1..(4 ^ n) |-> one(w - 1)])

(* ---- C13 ---- *)
Upto(a, b) == Strict([i \in 1..(b - a + 1) |-> a + i - 1])
Each(q, F(_)) == Strict([i \in DOMAIN q |-> F(q[i])])
DecDecls == Cat([p \in 1..65 |-> Each(Upto(0, IF p < 30 THEN p ELSE 30), LAMBDA z : [k |-> "dec", p |-> p, s |-> z])])
AllDecls == Strict(
  <<[k |-> "tiny"], [k |-> "short"], [k |-> "int24"], [k |-> "long"], [k |-> "longlong"], [k |-> "float"], [k |-> "double"],
    [k |-> "date"], [k |-> "time"], [k |-> "year"], [k |-> "dt"], [k |-> "ts"]>>
  \o DecDecls
  \o Each(Upto(1, 64), LAMBDA z : [k |-> "bit", n |-> z])
  \o Each(Upto(0, 1020), LAMBDA z : [k |-> "char", len |-> z])
  \o Each(Upto(0, 520) \o <<767, 768, 769, 1023, 1024, 1025, 4095, 4096, 16383, 32767, 32768, 65532, 65535>>,
          LAMBDA z : [k |-> IF z % 2 = 0 THEN "varchar" ELSE "varstring", len |-> z])
  \o Each(<<255, 256>>, LAMBDA z : [k |-> IF z % 2 = 1 THEN "varchar" ELSE "varstring", len |-> z])
  \o Each(Upto(1, 2), LAMBDA z : [k |-> "enum", n |-> z])
  \o Each(<<1, 2, 3, 4, 8>>, LAMBDA z : [k |-> "set", n |-> z])
  \o Cat(Each(Upto(0, 6), LAMBDA z : <<[k |-> "time2", fsp |-> z], [k |-> "ts2", fsp |-> z], [k |-> "dt2", fsp |-> z]>>))
  \o Cat(Each(Upto(1, 4), LAMBDA z : Each(<<249, 250, 251, 252>>, LAMBDA t : [k |-> "blob", t |-> t, n |-> z])))
  \o <<[k |-> "json", n |-> 4], [k |-> "geom", n |-> 4]>>)
(* simple types have more values to show than declarations *)
Rows13(d) == IF d.k \in {"dec", "char", "varchar", "varstring"} THEN ROWS ELSE ROWS * 8
PerChunk == 40
DeclChunk(c) ==
  LET lo == (c - 1) * PerChunk
      hi == IF lo + PerChunk > Len(AllDecls) THEN Len(AllDecls) ELSE lo + PerChunk
      non == <<FALSE, FALSE>>
      yes == <<TRUE, TRUE>>
      pair(i) ==
        LET g == Sub(GenOf(c), i)
            d == <<AllDecls[i], [k |-> "short"]>>
            tid == LE(i, 6)
            \* short values, but for a few
            v(h) == <<Value(d[1], h), Value(d[2], Sub(h, 2))>>
            row(h) == [n1 |-> non, v1 |-> v(h), n2 |-> non, v2 |-> v(Sub(h, 3))]
            m == PlainMap(g, tid, d)
            r == RowsEvent(Pick(g, 1, <<"write", "delete", "update">>), 1 + (i % 2), tid, 1, <<>>, d, yes, yes,
                           Strict([j \in 1..Rows13(d[1]) |-> row(Sub(g, 10 + j))]))
        IN  <<ItOf(c, g, m), ItOf(c, Sub(g, 1), r)>>
  IN  Cat([i \in 1..(hi - lo) |-> pair(lo + i)])

(* ---- C14 ---- *)
RichDecls == << [k |-> "long"], [k |-> "varchar", len |-> 80], [k |-> "enum", n |-> 1], [k |-> "dec", p |-> 10, s |-> 2],
                [k |-> "set", n |-> 2], [k |-> "geom", n |-> 4], [k |-> "char", len |-> 300], [k |-> "blob", t |-> 252, n |-> 2],
                [k |-> "tiny"], [k |-> "double"] >>
MetaChunk(c) ==      \* fields of subsets 32 * (c - 1) ..
  LET one(b) == LET g == Sub(GenOf(c), b)
                    f == SelectSeq(Upto(1, 12), LAMBDA i : (b \div (2 ^ (i - 1))) % 2 = 1)
                IN  ItOf(c, g, TableMap(RBytes(g, 6), 1, RIdent(g, 4), RIdent(Sub(g, 1), 5), RichDecls,
                                      Bools(10, Rn(g, 3, 1024)), [i \in DOMAIN f |-> MetaField(f[i], Sub(g, f[i]), RichDecls)]))
  IN  Strict([i \in 1..32 |-> one(32 * (c - 1) + i - 1)])

(* ---- C10, C15 ---- *)
MinTypes == 27
MaxTypes == 198
Decoded == {2, 4, 5, 14, 15, 16, 19, 23, 24, 25, 27, 29, 30, 31, 32, 33, 35, 160, 162, 163}
FdeChunk(c) ==
  LET g == GenOf(c)
      f(i, a) == LET ev == FdeEv(RText(Sub(g, i), Pick(g, i, <<6, 12, 49, 50>>)), MinTypes + c - 1, a, Sub(g, 20 + i))
                 IN  Item(ev, Sub(g, 40 + i), IF a = -1 THEN 0 ELSE 1, IF a \in {-1, 0, 1} THEN Ok(ev) ELSE <<"err", "">>)
      q(i, a) == LET ev == RQuery(Sub(g, 60 + i)) IN Item(ev, Sub(g, 70 + i), a, Ok(ev))
      bad1 == Pick(g, 80, <<2, 3, 127, 128, 255>>)
  IN  <<f(1, 0), q(1, 0), f(2, 1), q(2, 1), f(3, bad1), q(3, 1), f(4, -1), q(4, 0), f(5, 1), f(6, 0), q(5, 0)>>
      \o [t \in 1..256 |-> LET ev == Ev(t - 1, RBytes(Sub(g, 90 + t), Rn(g, t, 30)), <<"unknown">>)
                           IN  IF (t - 1) \in Decoded THEN q(100 + t, 0) ELSE Item(ev, Sub(g, 100 + t), 0, Ok(ev))]

(* ---- C11: many tables in one stream ---- *)
TableNumbers == <<2, 15, 16, 17, 63, 64, 65, 99, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001>>
IdOf(i, kind) == CASE kind = 0 -> LE(i, 6)                      \* consecutive ids
                  [] kind = 1 -> LE(0, 2) \o LE(i, 4)           \* told apart by their upper bytes only
                  [] OTHER -> LE(i * 97, 3) \o LE(i, 3)
TableChunk(c) ==
  LET n == TableNumbers[1 + ((c - 1) % Len(TableNumbers))]
      kind == (c - 1) \div Len(TableNumbers)
      g(i) == Sub(GenOf(c), i)
      d(i, v) == SmallDecls(Sub(g(i), v), 1 + ((i + v) % 3))
      map(i, v) == ItOf(c, g(i + v), PlainMap(IF i % 2 = 0 THEN g(1) ELSE g(i + v), IdOf(i, kind), d(i, v)))
      rows(i, v) == ItOf(c, g(i + 7 + v), RRows(g(i + 7 + v), IdOf(i, kind), d(i, v), TRUE, 1))
      some == {1, 2, 3, n - 2, n - 1, n} \cup {1 + (((i * n) \div 17) % n) : i \in 1..16}
      sel == SelectSeq(Upto(1, n), LAMBDA i : i \in some)
      \* some are defined anew, the others keep the definition they have
      again == SelectSeq(sel, LAMBDA i : i % 2 = 0)
  IN  [i \in 1..n |-> map(i, 0)] \o Each(sel, LAMBDA i : rows(i, 0)) \o Each(again, LAMBDA i : map(i, 1))
      \o Each(Reverse(sel), LAMBDA i : rows(i, IF i % 2 = 0 THEN 1 ELSE 0))
      \o <<ItOf(c, g(5000), RXid(g(1)))>>

(* ---- C12: wide tables, many rows, extra data of every length ---- *)
Widths == <<10, 16, 17, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 247, 248, 249, 250, 251, 252, 255, 256, 257, 500, 511, 512, 513, 1000, 1016, 1017, 4096>>
RowNumbers == <<8, 10, 16, 17, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000, 1500>>
WideChunk(c, n) ==
  LET d == Strict([i \in 1..n |-> [k |-> IF (i * i) % 3 = 0 THEN "short" ELSE "tiny"]])
      bits(a) == Strict([i \in 1..n |-> CASE a = 0 -> FALSE [] a = 1 -> TRUE [] a = 2 -> i = n [] a = 3 -> i = 1
                                        [] a = 4 -> i % 2 = 0 [] a = 5 -> i % 2 = 1 [] a = 6 -> (i * 7 + n) % 5 < 2 [] OTHER -> i > n - 9])
      vals(g) == Strict([i \in 1..n |-> Value(d[i], Sub(g, i))])
      row(g, a, b) == [n1 |-> bits(a), v1 |-> vals(Sub(g, 1)), n2 |-> bits(b), v2 |-> vals(Sub(g, 2))]
      one(w) == LET g == Sub(GenOf(c), w)
                IN  ItOf(c, g, RowsEvent(<<"write", "update", "delete">>[1 + (w % 3)], 1 + ((w \div 3) % 2), OneId, 1, <<>>, d,
                                         bits(<<1, 4, 2, 6, 1, 7>>[1 + (w % 6)]), bits(<<1, 5, 6, 3, 7, 1>>[1 + (w % 6)]),
                                         <<row(g, w % 8, (w + 3) % 8), row(Sub(g, 9), (w + 5) % 8, (w + 1) % 8)>>))
  IN  <<ItOf(c, GenOf(c), PlainMap(GenOf(c), OneId, d))>> \o Strict([w \in 1..(IF n > 600 THEN 3 ELSE 12) |-> one(w)])
ManyChunk(c, m) ==
  LET d == <<[k |-> "tiny"], [k |-> "varchar", len |-> 20], [k |-> "short"]>>
      v(h) == <<Value(d[1], h), StrVal(20, 2, RIdent(h, 2)), Value(d[3], Sub(h, 2))>>
      nul(h) == <<Rn(h, 1, 3) = 0, Rn(h, 2, 3) = 0, Rn(h, 3, 3) = 0>>
      row(h) == [n1 |-> nul(h), v1 |-> v(h), n2 |-> nul(Sub(h, 8)), v2 |-> v(Sub(h, 3))]
      one(w) == LET g == Sub(GenOf(c), w)
                IN  ItOf(c, g, RowsEvent(<<"write", "update", "delete">>[w], 1 + (c % 2), OneId, 1, <<>>, d,
                                         <<TRUE, w # 2, TRUE>>, <<TRUE, TRUE, w = 2>>, Strict([j \in 1..m |-> row(Sub(g, j))])))
  IN  <<ItOf(c, GenOf(c), PlainMap(GenOf(c), OneId, d))>> \o [w \in 1..3 |-> one(w)]
ExtraLengths == Upto(0, 300) \o <<511, 512, 513, 1022, 1023, 1024, 4093, 4094, 32765, 32766, 32767, 65531, 65532, 65533>>
ExtraChunk(c, q) ==
  LET d == <<[k |-> "tiny"], [k |-> "short"]>>
      v(h) == <<Value(d[1], h), Value(d[2], Sub(h, 2))>>
      non == <<FALSE, FALSE>>
      one(x) == LET g == Sub(GenOf(c), x)
                IN  ItOf(c, g, RowsEvent(<<"write", "update", "delete">>[1 + (x % 3)], 2, OneId, 1, RBytes(g, x), d, <<TRUE, TRUE>>, <<TRUE, TRUE>>,
                                         <<[n1 |-> non, v1 |-> v(g), n2 |-> non, v2 |-> v(Sub(g, 2))]>>))
  IN  <<ItOf(c, GenOf(c), PlainMap(GenOf(c), OneId, d))>> \o Each(q, LAMBDA x : one(x))

(* ---- C13: values one by one ---- *)
(* 3 * 8n values of n bytes: single bits, all bits below, all others *)
Patterns(n, j) ==
  LET i == (j - 1) \div 3
      one == [b \in 1..n |-> IF b = 1 + (i \div 8) THEN 2 ^ (i % 8) ELSE 0]
      low == [b \in 1..n |-> IF b = 1 + (i \div 8) THEN 2 ^ (i % 8) - 1 ELSE IF b <= i \div 8 THEN 255 ELSE 0]
  IN  Strict(CASE j % 3 = 0 -> one [] j % 3 = 1 -> low [] OTHER -> [b \in 1..n |-> 255 - one[b]])
FracNumber(fsp) == IF fsp = 0 THEN 1 ELSE IF fsp < 4 THEN Pow10[fsp] ELSE 1000
FracOf(fsp, j) == Micros(IF fsp < 4 THEN j - 1 ELSE (j - 1) * (Pow10[fsp] \div 1000) + ((j * 7) % (Pow10[fsp] \div 1000)), fsp)
Lengths == Upto(0, 260) \o <<511, 512, 767, 768, 1000>>
LongLengths == <<1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65534, 65535>>
HugeLengths == <<65536, 65537, 131071, 131072, 1000000>>
DecSweep == << <<1, 0>>, <<1, 1>>, <<2, 1>>, <<3, 3>>, <<4, 2>>, <<5, 5>>, <<8, 0>>, <<9, 0>>, <<9, 9>>, <<10, 0>>, <<10, 1>>, <<10, 10>>, <<11, 2>>,
   <<12, 10>>, <<13, 4>>, <<17, 8>>, <<18, 0>>, <<18, 9>>, <<18, 18>>, <<19, 1>>, <<19, 19>>, <<20, 10>>, <<27, 9>>, <<27, 18>>, <<28, 10>>,
   <<29, 11>>, <<30, 30>>, <<31, 30>>, <<36, 0>>, <<37, 19>>, <<38, 20>>, <<39, 30>>, <<45, 27>>, <<46, 18>>, <<55, 7>>, <<63, 27>>, <<64, 10>>,
   <<65, 0>>, <<65, 1>>, <<65, 2>>, <<65, 29>>, <<65, 30>> >>
Sweeps == Strict(
  Each(<<1, 2, 3, 4, 8>>, LAMBDA z : [k |-> "bits", n |-> 24 * z, d |-> [k |-> <<"tiny", "short", "int24", "long", "", "", "", "longlong">>[z]], w |-> z])
  \o <<[k |-> "tiny", n |-> 256, d |-> [k |-> "tiny"]], [k |-> "year", n |-> 256, d |-> [k |-> "year"]]>>
  \o Each(<<1, 2>>, LAMBDA z : [k |-> "enums", n |-> IF z = 1 THEN 256 ELSE 1024, d |-> [k |-> "enum", n |-> z]])
  \o Each(<<1, 2, 3, 4, 8>>, LAMBDA z : [k |-> "sets", n |-> 24 * z, d |-> [k |-> "set", n |-> z]])
  \o Each(Upto(1, 64), LAMBDA z : [k |-> "bit", n |-> 2 * z + 2, d |-> [k |-> "bit", n |-> z]])
  \o <<[k |-> "years", n |-> 1250, d |-> [k |-> "date"]], [k |-> "years", n |-> 1250, d |-> [k |-> "dt"]], [k |-> "years", n |-> 1250, d |-> [k |-> "dt2", fsp |-> 0]],
        [k |-> "days", n |-> 416, d |-> [k |-> "date"]], [k |-> "days", n |-> 416, d |-> [k |-> "dt"]], [k |-> "days", n |-> 416, d |-> [k |-> "dt2", fsp |-> 0]],
        [k |-> "clock", n |-> 144, d |-> [k |-> "dt"]], [k |-> "clock", n |-> 144, d |-> [k |-> "dt2", fsp |-> 0]],
        [k |-> "hours", n |-> 839, d |-> [k |-> "time"]], [k |-> "hours", n |-> 839, d |-> [k |-> "time2", fsp |-> 0]],
        [k |-> "clock", n |-> 120, d |-> [k |-> "time"]], [k |-> "clock", n |-> 120, d |-> [k |-> "time2", fsp |-> 0]],
        [k |-> "stamps", n |-> 96, d |-> [k |-> "ts"]], [k |-> "stamps", n |-> 96, d |-> [k |-> "ts2", fsp |-> 0]]>>
  \o Each(Upto(0, 6), LAMBDA z : [k |-> "frac", n |-> FracNumber(z), d |-> [k |-> "ts2", fsp |-> z]])
  \o Each(Upto(0, 6), LAMBDA z : [k |-> "frac", n |-> FracNumber(z), d |-> [k |-> "dt2", fsp |-> z]])
  \o Each(Upto(0, 6), LAMBDA z : [k |-> "frac", n |-> FracNumber(z), d |-> [k |-> "time2", fsp |-> z]])
  \o Each(<<255, 256, 65535>>, LAMBDA z : [k |-> "length", n |-> IF z = 255 THEN 256 ELSE IF z = 256 THEN 257 ELSE Len(Lengths), d |-> [k |-> "varchar", len |-> z]])
  \o Each(<<255, 256, 511, 512, 767, 768, 1020>>, LAMBDA z : [k |-> "length", n |-> IF z < 265 THEN z + 1 ELSE 261, d |-> [k |-> "char", len |-> z]])
  \o Each(Upto(1, 4), LAMBDA z : [k |-> "length", n |-> IF z = 1 THEN 256 ELSE Len(Lengths), d |-> [k |-> "blob", t |-> 252, n |-> z]])
  \o <<[k |-> "length", n |-> Len(Lengths), d |-> [k |-> "json", n |-> 4]], [k |-> "length", n |-> Len(Lengths), d |-> [k |-> "geom", n |-> 4]]>>
  \o <<[k |-> "long", n |-> Len(LongLengths), d |-> [k |-> "varchar", len |-> 65535]], [k |-> "long", n |-> Len(LongLengths), d |-> [k |-> "blob", t |-> 252, n |-> 2]]>>
  \o Each(<<3, 4>>, LAMBDA z : [k |-> "huge", n |-> Len(HugeLengths), d |-> [k |-> "blob", t |-> 252, n |-> z]])
  \o Each(DecSweep, LAMBDA z : [k |-> "digits", n |-> 4 * z[1], d |-> [k |-> "dec", p |-> z[1], s |-> z[2]]]))
Text(n, j) == IF n > 1000 THEN Run(n, 33 + (j % 90)) ELSE Strict([i \in 1..n |-> 33 + ((i + j) % 90)])
LenVal(d, n, j) == IF d.k \in {"varchar", "char"} THEN StrVal(d.len, n, Text(n, j)) ELSE BlobVal(d.n, n, Text(n, j))
(* a single digit 1 or 9 in place i, positive or negative *)
DigitVal(d, j) ==
  LET i == 1 + ((j - 1) \div 4)
      v == IF j % 2 = 0 THEN 1 ELSE 9
      q == [x \in 1..d.p |-> IF x = i THEN v ELSE 0]
  IN  DecVal((j \div 2) % 2 = 0, SubSeq(q, 1, d.p - d.s), SubSeq(q, d.p - d.s + 1, d.p))
MicAt(w, j) == FracOf(w.d.fsp, j)
SweepVal(w, j) ==
  LET d == w.d IN
  CASE w.k = "bits" -> LET x == Patterns(w.w, j)
                       IN  Val(x, <<<<"tiny", "small", "medium", "int", "", "", "", "big">>[w.w], Widen(x, IF w.w = 3 THEN 4 ELSE w.w)>>)
    [] w.k = "tiny" -> Val(<<j - 1>>, <<"tiny", <<j - 1>>>>)
    [] w.k = "year" -> YearVal(j - 1)
    [] w.k = "enums" -> LET x == LE(IF d.n = 1 THEN j - 1 ELSE (j * 64 + (j % 64)) % 65536, d.n) IN Val(x, <<"enum", Widen(x, 4)>>)
    [] w.k = "sets" -> LET x == Patterns(d.n, j) IN Val(x, <<"set", Widen(x, 8)>>)
    [] w.k = "bit" -> BitVal(d.n, [i \in 1..d.n |-> IF j > 2 * d.n THEN j % 2 ELSE IF i = 1 + ((j - 1) \div 2) THEN j % 2 ELSE 1 - (j % 2)])
    [] w.k \in {"years", "days", "clock"} ->
         LET y == IF w.k = "years" THEN (j - 1) * 8 + (j % 8) ELSE 1000 + j
             m == IF w.k = "days" THEN (j - 1) \div 32 ELSE 1 + (j % 12)
             a == IF w.k = "days" THEN (j - 1) % 32 ELSE 1 + (j % 28)
             h == IF w.k = "clock" THEN (IF j > 120 THEN j - 121 ELSE 7) ELSE j % 24
             i == IF w.k = "clock" THEN (IF j <= 60 THEN j - 1 ELSE 9) ELSE j % 60
             e == IF w.k = "clock" THEN (IF j > 60 /\ j <= 120 THEN j - 61 ELSE 11) ELSE (j * 7) % 60
         IN  (CASE d.k = "date" -> DateVal(y, m, a) [] d.k = "dt" -> DtVal(y, m, a, h, i, e) [] d.k = "dt2" -> Dt2Val(y, m, a, h, i, e, 0, 0)
               [] d.k = "time" -> TimeVal(h, i, e) [] d.k = "time2" -> Time2Val(h, i, e, 0, 0))
    [] w.k = "hours" -> IF d.k = "time" THEN TimeVal(j - 1, j % 60, (j * 7) % 60) ELSE Time2Val(j - 1, j % 60, (j * 7) % 60, 0, 0)
    [] w.k = "stamps" -> LET x == Patterns(4, j) IN IF d.k = "ts" THEN Val(x, <<"ts", Widen(x, 8), 0>>) ELSE Ts2Val(x, 0, 0)
    [] w.k = "frac" -> (CASE d.k = "ts2" -> Ts2Val(LE(j, 4), MicAt(w, j), d.fsp)
                         [] d.k = "dt2" -> Dt2Val(1000 + j, 1 + (j % 12), 1 + (j % 28), j % 24, j % 60, (j * 7) % 60, MicAt(w, j), d.fsp)
                         [] OTHER -> Time2Val(j % 839, j % 60, (j * 7) % 60, MicAt(w, j), d.fsp))
    [] w.k = "length" -> LenVal(d, Lengths[j], j)
    [] w.k = "long" -> LenVal(d, LongLengths[j], j)
    [] w.k = "huge" -> LenVal(d, HugeLengths[j], j)
    [] OTHER -> DigitVal(d, j)
(* the sweeps in pieces of at most 300 values: <<sweep, from, to>> *)
Pieces == Strict(Cat([i \in DOMAIN Sweeps |-> [p \in 1..((Sweeps[i].n + 299) \div 300) |->
                   <<i, (p - 1) * 300 + 1, IF p * 300 < Sweeps[i].n THEN p * 300 ELSE Sweeps[i].n>>]]))
SweepChunk(c, p) ==
  LET w == Sweeps[p[1]]
      d == <<w.d, [k |-> "tiny"]>>
      non == <<FALSE, FALSE>>
      yes == <<TRUE, TRUE>>
      op == IF (c % 2) = 0 THEN "write" ELSE "update"
      v(j) == <<SweepVal(w, IF j > w.n THEN j - w.n ELSE j), Val(<<j % 256>>, <<"tiny", <<j % 256>>>>)>>
      row(j) == [n1 |-> non, v1 |-> v(j), n2 |-> non, v2 |-> IF op = "write" THEN v(1) ELSE v(j + 1)]
  IN  <<ItOf(c, GenOf(c), PlainMap(GenOf(c), OneId, d)),
        ItOf(c, Sub(GenOf(c), 1), RowsEvent(op, 2, OneId, 1, <<>>, d, yes, yes, Strict([j \in 1..(p[3] - p[2] + 1) |-> row(p[2] + j - 1)])))>>

(* ---- C14: wide tables of one kind of column; names of every length ---- *)
WideDecls == << [k |-> "varchar", len |-> 300], [k |-> "char", len |-> 300], [k |-> "blob", t |-> 252, n |-> 2], [k |-> "dec", p |-> 10, s |-> 2],
                [k |-> "bit", n |-> 9], [k |-> "enum", n |-> 1], [k |-> "set", n |-> 2], [k |-> "double"], [k |-> "tiny"], [k |-> "dt2", fsp |-> 3] >>
MapWidths == <<20, 62, 63, 64, 83, 84, 85, 124, 125, 126, 127, 128, 129, 249, 250, 251, 252, 255, 256, 257, 511, 512, 1000>>
WideMapChunk(c, n) ==
  LET g(i) == Sub(GenOf(c), i)
      one(i) == LET d == Strict([x \in 1..n |-> WideDecls[i]])
                    \* names, keys, keys with prefixes, visibility, signedness: as wide as the table
                    codes == SelectSeq(<<1, 3, 4, 8, 9, 11, 12>>, LAMBDA x : FieldApplies(x, d) /\ n <= 300 /\ (x + i + n) % 3 # 0)
                IN  ItOf(c, g(i), TableMap(RBytes(g(i), 6), 1, RIdent(g(i), 4), RIdent(g(i), 5), d, [x \in 1..n |-> (x * x) % 3 = 0],
                                           Each(codes, LAMBDA x : MetaField(x, Sub(g(i), x), d))))
  IN  [i \in DOMAIN WideDecls |-> one(i)]
NameChunk(c, lo) ==
  LET one(l) == LET g == Sub(GenOf(c), l)
                    nm(n) == RText(Sub(g, 5), n)
                    d == <<[k |-> "long"]>>
                    col == nm(IF l < 64 THEN 4 * l + 1 ELSE l)
                IN  ItOf(c, g, TableMap(RBytes(g, 6), 1, nm(l), RText(g, 255 - l), d, <<TRUE>>,
                                        <<[c |-> 4, b |-> LenStr(col), x |-> <<col>>]>>))
  IN  [l \in 1..32 |-> one(lo + l - 1)]

(* ---- C15: lengths ---- *)
Names(g, l) == IF l > 1000 THEN Run(l, 97 + (l % 26)) ELSE RText(g, l)
LengthChunk(c, lo) ==     \* 40 lengths from lo on, and some long ones
  LET q == Upto(lo, lo + 39) \o (IF lo = 0 THEN <<1000, 1001, 4096, 65533, 65534, 65535, 65536, 65537, 131072>> ELSE <<>>)
      g(l, i) == Sub(Sub(GenOf(c), l), i)
      t(l, i) == Names(g(l, i), l)
      z == <<0, 0, 0, 0>>
      one(l) ==
        << QueryEv(<<l % 256, 0, 0, 1>>, z, 0, IF l > 65535 THEN <<>> ELSE t(l, 1), RText(g(l, 2), l % 256), t(l, 3)),
           RotateEv(LE(l, 8), t(l, 4)), HbEv(t(l, 5)),
           Ev(T_RQ, <<IF l < 256 THEN l ELSE 255>> \o t(l, 6), <<"rowsquery", t(l, 6)>>),
           Ev(T_ANNOTATE, t(l, 7), <<"rowsquery", t(l, 7)>>),
           UserVarEv(Names(g(l, 8), IF l > 1000 THEN 9 ELSE l), 0, LE(l, 4), t(l, 9), 0, FALSE),
           UserVarEv(Names(g(l, 8), 1 + (l % 250)), 0, LE(l, 4), t(l, 9), l % 256, TRUE) >>
  IN  Cat(Each(q, LAMBDA l : LET o == one(l) IN [i \in DOMAIN o |-> ItOf(c, g(l, 20 + i), o[i])]))
Counts == Upto(0, 20) \o <<31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 250, 251, 252, 255, 256, 257, 300>>
CountChunk(c, n) ==      \* n domains; n servers; a server with n intervals
  LET g(i) == Sub(GenOf(c), i)
      l == Strict([i \in 1..n |-> <<LE(i, 2) \o RBytes(g(i), 2), EBytes(g(20 + i), 4), EBytes(g(40 + i), 8)>>])
      u(i) == LE(i * 7, 2) \o RBytes(g(i), 14)
      us == SortSeq(Strict([i \in 1..n |-> <<i \div 256, i % 256>> \o RBytes(g(i), 14)]), LAMBDA a, b : a[1] * 256 + a[2] < b[1] * 256 + b[2])
      iv(j) == <<LE(10 * j, 8), LE(10 * j + 1 + (j % 5), 8), LE(10 * j + (j % 5), 8)>>
      some(i) == [j \in 1..(1 + (i % 3)) |-> iv(j)]
      many == [j \in 1..n |-> iv(j)]
      enc(x, v) == x \o LE(Len(v), 8) \o Cat([j \in DOMAIN v |-> v[j][1] \o v[j][2]])
      obs(x, v) == <<x, [j \in DOMAIN v |-> <<v[j][1], v[j][3]>>]>>
      prev(v(_), q) == Ev(T_PREV, LE(Len(q), 8) \o Cat([i \in DOMAIN q |-> enc(q[i], v(i))]), <<"mprev", [i \in DOMAIN q |-> obs(q[i], v(i))]>>)
      e == << Ev(T_MLIST, LE(n, 4) \o Cat([i \in 1..n |-> l[i][1] \o l[i][2] \o l[i][3]]), <<"alist", l>>),
              prev(some, us), prev(LAMBDA i : many, <<RBytes(g(3), 16)>>) >>
  IN  [i \in 1..3 |-> ItOf(c, g(90 + i), e[i])]

(* ---- C13, C15: text in which not every byte sequence is UTF-8 (binary strings, other
   character sets); every second event is such a one, the others carry plain text ---- *)
Raws == << <<128>>, <<255>>, <<97, 255, 98>>, <<195>>, <<195, 40>>, <<0, 159, 146, 150>>, <<237, 160, 128>>, <<192, 128>>, <<244, 144, 128, 128>>,
           <<228, 246, 252>>, <<254, 0, 0, 0, 0, 0, 0, 1>>, <<97, 98, 226, 130>> >>
Plains == << <<97>>, <<>>, <<97, 98, 99>>, <<195, 164>>, <<0>>, <<226, 130, 172>> >>
OddText(i) == IF i % 2 = 1 THEN Raws[1 + ((i \div 2) % Len(Raws))] ELSE Plains[1 + ((i \div 2) % Len(Plains))]
OddEvents == 2 * Len(Raws)
OddItems(c, x) ==
  LET g(i) == Sub(GenOf(c), i)
      z == <<0, 0, 0, 0>>
      u(i) == IF i % 3 = 0 THEN RText(g(i), 3) ELSE <<97>>
      d == CASE x = "char" -> [k |-> "char", len |-> 40] [] x = "varchar" -> [k |-> "varchar", len |-> 300] [] OTHER -> [k |-> "varstring", len |-> 80]
      ds == <<d, [k |-> "tiny"]>>
      row(t, i) == LET v == <<StrVal(d.len, Len(t), t), Val(<<i>>, <<"tiny", <<i>>>>)>> IN [n1 |-> <<FALSE, FALSE>>, v1 |-> v, n2 |-> <<FALSE, FALSE>>, v2 |-> v]
      ev(i) ==
        LET t == OddText(i) IN
        CASE x = "uservar" -> UserVarEv(u(i), 0, <<63, 0, 0, 0>>, t, 0, FALSE)
          [] x = "intvar" -> UserVarEv(u(i), 2, <<63, 0, 0, 0>>, IF i % 2 = 1 THEN <<200 + i, 255>> \o z \o <<i, 255>> ELSE <<i>> \o z \o <<0, 0, 0>>, (i % 4) \div 2, TRUE)
          [] x = "sql" -> QueryEv(<<i, 0, 0, 0>>, z, 0, <<>>, u(i), <<73, 32>> \o t)
          [] x = "annotate" -> Ev(T_ANNOTATE, <<73, 32>> \o t, <<"rowsquery", <<73, 32>> \o t>>)
          [] OTHER -> RowsEvent(<<"write", "delete", "update">>[1 + (i % 3)], 2, OneId, 1, <<>>, ds, <<TRUE, TRUE>>, <<TRUE, TRUE>>, <<row(Plains[1], i), row(t, i)>>)
      table == x \in {"char", "varchar", "varstring"}
      head == IF table THEN <<ItOf(c, g(90), PlainMap(g(91), OneId, ds))>> ELSE <<>>
  IN  head \o [i \in 1..OddEvents |-> ItOf(c, g(i), ev(i))]
OddPlaces(x) == LET n == IF x \in {"char", "varchar", "varstring"} THEN 1 ELSE 0 IN [i \in 1..Len(Raws) |-> n + 2 * i - 2]   \* counted from 0

(* ---- C20: an event to be altered byte by byte, what may depend on it, and events
   after it that have to be unharmed ---- *)
Victims == << [k |-> "tiny"], [k |-> "int24"], [k |-> "longlong"], [k |-> "float"], [k |-> "dec", p |-> 10, s |-> 2], [k |-> "dec", p |-> 65, s |-> 30], [k |-> "dec", p |-> 9, s |-> 0],
              [k |-> "varchar", len |-> 40], [k |-> "varstring", len |-> 300], [k |-> "char", len |-> 20], [k |-> "char", len |-> 400], [k |-> "blob", t |-> 252, n |-> 2],
              [k |-> "blob", t |-> 252, n |-> 4], [k |-> "json", n |-> 4], [k |-> "geom", n |-> 4], [k |-> "bit", n |-> 9], [k |-> "bit", n |-> 64], [k |-> "enum", n |-> 2], [k |-> "set", n |-> 8],
              [k |-> "date"], [k |-> "time"], [k |-> "year"], [k |-> "dt"], [k |-> "ts"], [k |-> "time2", fsp |-> 0], [k |-> "time2", fsp |-> 4], [k |-> "ts2", fsp |-> 6], [k |-> "dt2", fsp |-> 3] >>
ShortVal(d, g) == CASE d.k \in {"char", "varchar", "varstring"} -> StrVal(d.len, 3, <<97, 98, 99>>)
                   [] d.k \in {"blob", "json", "geom"} -> BlobVal(d.n, 2, <<7, 8>>)
                   [] OTHER -> Value(d, g)
Intact(c, i) ==
  LET g == Sub(GenOf(c), 50 + i)  d == <<[k |-> "short"], [k |-> "varchar", len |-> 30]>>  id == <<9, 9, i, 0, 0, 0>>
      v(j) == <<ShortVal(d[1], Sub(g, j)), ShortVal(d[2], Sub(g, j))>>
      row == [n1 |-> <<FALSE, FALSE>>, v1 |-> v(1), n2 |-> <<FALSE, TRUE>>, v2 |-> v(2)]
  IN  <<ItOf(c, g, PlainMap(g, id, d)), ItOf(c, Sub(g, 3), RowsEvent("update", 2, id, 1, <<5>>, d, <<TRUE, TRUE>>, <<TRUE, TRUE>>, <<row>>)), ItOf(c, Sub(g, 4), RXid(g))>>
TablePair(c, i) ==
  LET g == Sub(GenOf(c), i)
      d == <<Victims[i], [k |-> "short"]>>
      op == <<"write", "delete", "update">>[1 + (i % 3)]
      v(h) == <<ShortVal(d[1], h), Value(d[2], h)>>
      row(h, nul) == [n1 |-> <<nul, FALSE>>, v1 |-> v(h), n2 |-> <<FALSE, nul>>, v2 |-> v(Sub(h, 3))]
  IN  <<ItOf(c, g, PlainMap(g, OneId, d)),
        ItOf(c, Sub(g, 1), RowsEvent(op, 1 + (i % 2), OneId, 1, <<1, 2>>, d, <<TRUE, TRUE>>, <<TRUE, i % 4 # 0>>, <<row(Sub(g, 10), FALSE), row(Sub(g, 20), TRUE)>>))>>
OtherVictim(g, i) ==
  LET z == <<0, 0, 0, 0>> IN
  CASE i \in {5, 6} -> LET w == << <<97, 98, 99, 100>>, <<101, 102, 103, 104>>, <<105, 106>>, <<>> >>
                           e == [c |-> i, b |-> StrLists(<<w>>), x |-> <<w>>]
                       IN  TableMap(OneId, 1, <<97>>, <<98>>, <<[k |-> IF i = 5 THEN "set" ELSE "enum", n |-> 1]>>, <<TRUE>>, <<e>>)
    [] i <= 12 -> LET e == MetaField(i, Sub(g, 77), RichDecls) IN TableMap(OneId, 1, <<97>>, <<98>>, RichDecls, [x \in 1..Len(RichDecls) |-> TRUE], <<e>>)
    [] i = 13 -> QueryEv(z, z, 0, <<1, 2, 3>>, <<97, 98>>, RText(g, 12))
    [] i = 14 -> UserVarEv(<<97, 98>>, 0, <<33, 0, 0, 0>>, RText(g, 5), 0, FALSE)
    [] i = 15 -> UserVarNull(<<97, 98>>)
    [] i = 16 -> RIntvar(g)
    [] i = 17 -> RXid(g)
    [] i = 18 -> RotateEv(LE(4, 8), RText(g, 12))
    [] i = 19 -> Ev(T_RQ, <<9>> \o RText(g, 9), <<"rowsquery", RText(g, 9)>>)
    [] i = 20 -> Ev(T_ANNOTATE, RText(g, 9), <<"rowsquery", RText(g, 9)>>)
    [] i = 21 -> RGtid(g)
    [] i = 22 -> LET u == RBytes(Sub(g, 1), 16) IN
                 Ev(T_PREV, LE(2, 8) \o u \o LE(1, 8) \o LE(1, 8) \o LE(5, 8) \o RBytes(Sub(g, 2), 16) \o LE(2, 8) \o LE(1, 8) \o LE(3, 8) \o LE(7, 8) \o LE(9, 8), <<"mprev">>)
    [] i = 23 -> Ev(T_MLIST, LE(2, 4) \o RBytes(g, 32), <<"alist">>)
    [] i = 24 -> Ev(T_MGTID, RBytes(g, 8) \o RBytes(Sub(g, 1), 4) \o <<0>> \o RBytes(Sub(g, 2), 6), <<"agtid">>)
    [] OTHER -> HbEv(RText(g, 9))
NOther == 25
(* [before, victim, dependants, after] *)
Scene(c, x) ==
  CASE x[1] = "map" -> LET p == TablePair(c, x[2]) IN [pre |-> <<>>, victim |-> p[1], dep |-> <<p[2]>>, post |-> Intact(c, 1)]
    [] x[1] = "rows" -> LET p == TablePair(c, x[2]) IN [pre |-> <<p[1]>>, victim |-> p[2], dep |-> <<>>, post |-> Intact(c, 2)]
    [] OTHER -> [pre |-> <<>>, victim |-> ItOf(c, GenOf(c), OtherVictim(GenOf(c), x[2])), dep |-> <<>>, post |-> Intact(c, 3)]
IsScene(c) == MIX = "C20" /\ c > 100000

(* the chunks of each mix: <<family, argument>> *)
Of(name, q) == Each(q, LAMBDA x : <<name, x>>)
XChunks == CASE MIX = "C11" -> Of("tables", Upto(1, 3 * Len(TableNumbers)))
            [] MIX = "C12" -> Of("wide", Widths) \o Of("many", RowNumbers)
                              \o Of("extra", Each(Upto(0, (Len(ExtraLengths) - 1) \div 35), LAMBDA i : SubSeq(ExtraLengths, 35 * i + 1, IF 35 * i + 35 > Len(ExtraLengths) THEN Len(ExtraLengths) ELSE 35 * i + 35)))
            [] MIX = "C13" -> Of("sweep", Pieces) \o Of("odd", <<"char", "varchar", "varstring">>)
            [] MIX = "C14" -> Of("widemap", MapWidths) \o Of("names", Each(Upto(0, 7), LAMBDA i : 32 * i))
            [] MIX = "C15" -> Of("length", Each(Upto(0, 14), LAMBDA i : 40 * i)) \o Of("count", Counts) \o Of("odd", <<"uservar", "intvar", "sql", "annotate">>)
            [] MIX = "C20" -> Of("map", Upto(1, Len(Victims))) \o Of("rows", Upto(1, Len(Victims))) \o Of("other", Upto(1, NOther))
            [] MIX = "C10" -> Of("name", <<"CRC64", "CRC32C", "CRC", "CRC3", "CRC322", "XXH3", "NONE2", "NON", "NONE,CRC32", "1", "0", "2", "OFF", "MD5", "SHA256", "ADLER32">>)
            [] OTHER -> <<>>
XItems(c, x) == CASE x[1] = "tables" -> TableChunk(x[2]) [] x[1] = "wide" -> WideChunk(c, x[2]) [] x[1] = "many" -> ManyChunk(c, x[2])
                 [] x[1] = "extra" -> ExtraChunk(c, x[2]) [] x[1] = "sweep" -> SweepChunk(c, x[2]) [] x[1] = "widemap" -> WideMapChunk(c, x[2])
                 [] x[1] = "names" -> NameChunk(c, x[2]) [] x[1] = "length" -> LengthChunk(c, x[2]) [] x[1] = "count" -> CountChunk(c, x[2])
                 [] x[1] = "odd" -> OddItems(c, x[2]) [] OTHER -> <<>>

Chunks == CASE MIX = "C12" -> {c \in DOMAIN Images : ImageOk(Images[c])}
            [] MIX = "C13" -> 1..((Len(AllDecls) + PerChunk - 1) \div PerChunk)
            [] MIX = "C14" -> 1..128
            [] MIX \in {"C10", "C15"} -> 1..(MaxTypes - MinTypes + 1)
            [] OTHER -> {}
Items(c) == IF c > 100000 THEN XItems(c, XChunks[c - 100000]) ELSE CASE MIX = "C12" -> ImageChunk(c) [] MIX = "C13" -> DeclChunk(c) [] MIX = "C14" -> MetaChunk(c)
              [] OTHER -> FdeChunk(c)

AInit == Init /\ chunk \in {c \in Chunks \cup {100000 + i : i \in DOMAIN XChunks} : c % PARTS = PART}
(* a server that has an algorithm no client knows: refused when the connection is set up *)
Unknown(c) == c > 100000 /\ XChunks[c - 100000][1] = "name"
IsOdd(c) == c > 100000 /\ XChunks[c - 100000][1] = "odd"
ANext ==
  /\ ph = "seed"
  /\ CSVWrite("%1$s", <<ToJson(IF Unknown(chunk) THEN [live |-> TRUE, nego |-> XChunks[chunk - 100000][2], segs |-> <<<<>>>>, refused |-> TRUE]
                               ELSE IF IsOdd(chunk)
                               THEN [live |-> LiveOf(chunk), nego |-> IF LiveOf(chunk) THEN NegoOf(chunk) ELSE "NONE", segs |-> <<Items(chunk)>>,
                                     refused |-> FALSE, odd |-> XChunks[chunk - 100000][2], oddat |-> OddPlaces(XChunks[chunk - 100000][2])]
                               ELSE IF IsScene(chunk)
                               THEN [live |-> LiveOf(chunk), nego |-> IF LiveOf(chunk) THEN NegoOf(chunk) ELSE "NONE", refused |-> FALSE,
                                     of |-> XChunks[chunk - 100000], scene |-> Scene(chunk, XChunks[chunk - 100000])]
                               ELSE [live |-> LiveOf(chunk), nego |-> IF LiveOf(chunk) THEN NegoOf(chunk) ELSE "NONE",
                                     segs |-> <<Items(chunk)>>, refused |-> FALSE])>>, IOEnv.OUT)
  /\ ph' = "done" /\ UNCHANGED <<s, k, live, nego, alg, tabs, segs, cur, ghost, chunk>>
=============================================================================
