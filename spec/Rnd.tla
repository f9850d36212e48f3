-------------------------------- MODULE Rnd --------------------------------
(* A small explicit pseudo random generator (three multiplicative streams),
   so that all data of a generated behaviour is a function of one seed drawn
   by TLC at the start of the behaviour.  Every operator takes a generator
   state s and an index i and is a pure function of both. *)
EXTENDS Integers, Sequences, TLC

Sub(s, i) == << (171 * ((s[1] + 31 * i) % 30269) + 11) % 30269,
                (172 * ((s[2] + 17 * i) % 30307) + 7) % 30307,
                (170 * ((s[3] + 13 * i) % 30323) + 3) % 30323 >>

Mix(t) == (((t[1] * t[2]) % 30011) + ((t[2] * t[3]) % 29989) + t[1])

(* an integer in 0..n-1 (n up to about 30000) *)
Rn(s, i, n) == Mix(Sub(Sub(s, i), 5)) % n

(* a choice from a sequence *)
Pick(s, i, q) == q[1 + Rn(s, i, Len(q))]

(* TRUE with probability 1/n *)
OneIn(s, i, n) == Rn(s, i, n) = 0

RBytes(s, n) == TLCEval([i \in 1..n |-> Rn(s, i, 256)])

(* bytes with the interesting values over-represented *)
EBytes(s, n) ==
  LET c == Rn(s, 901, 6) IN
  TLCEval(CASE c = 0 -> [i \in 1..n |-> 0]
    [] c = 1 -> [i \in 1..n |-> 255]
    [] c = 2 -> [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
    [] c = 3 -> [i \in 1..n |-> IF i = n THEN 127 ELSE 255]
    [] OTHER -> RBytes(s, n))

(* A permutation of the sequence q *)
RECURSIVE Shuffle(_, _)
Shuffle(s, q) ==
  IF Len(q) <= 1 THEN q
  ELSE LET k == 1 + Rn(s, Len(q), Len(q))
       IN  <<q[k]>> \o Shuffle(Sub(s, 3), SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q)))

(* Valid UTF-8 text of exactly n bytes, 1 to 4 byte characters *)
Chars == << <<194, 163>>, <<195, 191>>, <<226, 130, 172>>, <<239, 191, 189>>,
            <<240, 159, 146, 169>>, <<244, 143, 191, 191>>, <<208, 144>>, <<224, 160, 128>> >>
RECURSIVE TextAcc(_, _, _, _)
TextAcc(s, i, left, acc) ==
  IF left = 0 THEN acc
  ELSE LET c == Pick(s, i, Chars)
       IN  IF Rn(s, 1000 + i, 5) = 0 /\ Len(c) <= left
           THEN TextAcc(s, i + 1, left - Len(c), acc \o c)
           ELSE TextAcc(s, i + 1, left - 1, Append(acc, 32 + Rn(s, 2000 + i, 95)))
RText(s, n) ==
  IF n > 64 THEN LET o == Rn(s, 1, 26) IN TLCEval([i \in 1..n |-> 97 + ((i + o) % 26)])
  ELSE TextAcc(s, 1, n, <<>>)
(* text with no NUL, quotes or control characters: an identifier *)
RIdent(s, n) == TLCEval([i \in 1..n |-> 97 + Rn(s, i, 26)])
=============================================================================
