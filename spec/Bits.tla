-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bits, numbers and text.                                                 *)
(*                                                                         *)
(* A byte string is a sequence over 0..255.  TLC integers have 32 bits, so *)
(* a field of up to 24 bits is an integer and a wider one (32, 33, 40 or   *)
(* 48 bits) a pair <<hi, lo>> with value hi * 2^24 + lo.  Text is the byte *)
(* string of its UTF-8 encoding.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Pow2T == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
           16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152,
           4194304, 8388608, 16777216>>
Pow2(n) == Pow2T[n + 1]

W24 == 16777216                        \* 2^24, the base of a wide number
Zero == <<0, 0>>                       \* the wide zero

----------------------------------------------------------------------------
(* Reading.  A read past the end of the byte string yields zero bits. *)

ByteAt(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0

\* n <= 16 bits at bit offset p
Get16(b, p, n) ==
  LET i == p \div 8
      o == p % 8
  IN  ((ByteAt(b, i) * 65536 + ByteAt(b, i + 1) * 256 + ByteAt(b, i + 2))
         \div Pow2(24 - o - n)) % Pow2(n)

\* n <= 24 bits
GetN(b, p, n) ==
  IF n <= 16 THEN Get16(b, p, n)
  ELSE Get16(b, p, n - 8) * 256 + Get16(b, p + n - 8, 8)

\* 24 < n <= 48 bits
GetW(b, p, n) == <<GetN(b, p, n - 24), GetN(b, p + n - 24, 24)>>

GetBit(b, p) == Get16(b, p, 1) = 1

\* the n bytes from byte offset i on, fewer if there are not that many
SliceAt(b, i, n) ==
  IF i >= Len(b) THEN <<>>
  ELSE SubSeq(b, i + 1, IF i + n > Len(b) THEN Len(b) ELSE i + n)

----------------------------------------------------------------------------
(* Writing.  w = [out, acc, n]: the complete bytes and n < 8 pending bits. *)

NoBits == [out |-> <<>>, acc |-> 0, n |-> 0]

Put8(w, n, v) ==                       \* n <= 8
  LET a == w.acc * Pow2(n) + v
      m == w.n + n
  IN  IF m < 8 THEN [out |-> w.out, acc |-> a, n |-> m]
      ELSE [out |-> Append(w.out, a \div Pow2(m - 8)),
            acc |-> a % Pow2(m - 8), n |-> m - 8]

RECURSIVE PutN(_, _, _)
PutN(w, n, v) ==                       \* n <= 24
  IF n <= 8 THEN Put8(w, n, v)
  ELSE PutN(Put8(w, 8, v \div Pow2(n - 8)), n - 8, v % Pow2(n - 8))

PutW(w, n, v) == PutN(PutN(w, n - 24, v[1]), 24, v[2])

PutBytes(w, s) == [w EXCEPT !.out = w.out \o s]   \* only when w.n = 0

----------------------------------------------------------------------------
(* Wide numbers *)

FitsN(v, n) == v >= 0 /\ v < Pow2(n)
FitsW(v, n) == v[1] >= 0 /\ v[1] < Pow2(n - 24) /\ v[2] \in 0..(W24 - 1)

AddW(a, b) ==
  LET lo == a[2] + b[2]
  IN  <<a[1] + b[1] + lo \div W24, lo % W24>>

LtW(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

\* big-endian digit vectors in base 256 (used for 64-bit quantities)
WToBytes(v) == <<v[1] \div 65536, (v[1] \div 256) % 256, v[1] % 256,
                 v[2] \div 65536, (v[2] \div 256) % 256, v[2] % 256>>

U32ToBytes(v) == SubSeq(WToBytes(v), 3, 6)
BytesToU32(b) == <<b[1], b[2] * 65536 + b[3] * 256 + b[4]>>

----------------------------------------------------------------------------
(* Long division of a base-`base` digit vector by a small number *)

DivDigits(ds, base, d) ==
  FoldLeft(LAMBDA st, x :
             LET t == st.r * base + x
             IN  [q |-> Append(st.q, t \div d), r |-> t % d],
           [q |-> <<>>, r |-> 0], ds)

RECURSIVE StripZeros(_)
StripZeros(ds) ==
  IF ds # <<>> /\ ds[1] = 0 THEN StripZeros(Tail(ds)) ELSE ds

RECURSIVE DecRec(_, _)
DecRec(ds, acc) ==
  LET s == StripZeros(ds)
  IN  IF s = <<>> THEN acc
      ELSE LET x == DivDigits(s, 256, 10)
           IN  DecRec(x.q, <<48 + x.r>> \o acc)

\* decimal text of a big-endian byte vector
DecOfBytes(b) == LET t == DecRec(b, <<>>) IN IF t = <<>> THEN <<48>> ELSE t

\* decimal text of a wide number
DecW(v) == DecOfBytes(WToBytes(v))

DigitStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE StrOfDigits(_)
StrOfDigits(ds) ==
  IF ds = <<>> THEN "" ELSE DigitStr[ds[1] - 47] \o StrOfDigits(Tail(ds))
\* the same as a TLA+ string
DecStrW(v) ==
  IF v[1] < 64 THEN ToString(v[1] * W24 + v[2]) ELSE StrOfDigits(DecW(v))

\* text of a natural number below 2^31
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE DecOfBytes(<<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>)

IsDigit(c) == c >= 48 /\ c <= 57

\* multiply a base-256 vector of fixed length by 10 and add a digit;
\* o is TRUE once it has overflowed
MulAdd10(st, dgt) ==
  LET step == FoldRight(LAMBDA x, a :
                 LET t == x * 10 + a.c
                 IN  [v |-> <<t % 256>> \o a.v, c |-> t \div 256],
               st.v, [v |-> <<>>, c |-> dgt])
  IN  [v |-> step.v, o |-> st.o \/ step.c # 0]

\* parse a decimal text into n bytes: [ok, v]
ParseDec(t, n) ==
  IF t = <<>> \/ (\E i \in 1..Len(t) : ~IsDigit(t[i]))
  THEN [ok |-> FALSE, v |-> [i \in 1..n |-> 0]]
  ELSE LET r == FoldLeft(LAMBDA st, c : MulAdd10(st, c - 48),
                         [v |-> [i \in 1..n |-> 0], o |-> FALSE], t)
       IN  [ok |-> ~r.o, v |-> r.v]

----------------------------------------------------------------------------
(* Hexadecimal *)

HexU == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>
HexL == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>

HexOf(b, tab) ==
  [i \in 1..(2 * Len(b)) |->
     LET x == b[(i + 1) \div 2]
     IN  IF i % 2 = 1 THEN tab[(x \div 16) + 1] ELSE tab[(x % 16) + 1]]

HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE -1

ParseHex(t) ==                         \* [ok, v]
  IF Len(t) % 2 # 0 \/ (\E i \in 1..Len(t) : HexVal(t[i]) < 0)
  THEN [ok |-> FALSE, v |-> <<>>]
  ELSE [ok |-> TRUE,
        v |-> [i \in 1..(Len(t) \div 2) |->
                 HexVal(t[2 * i - 1]) * 16 + HexVal(t[2 * i])]]

----------------------------------------------------------------------------
(* Base64 (standard alphabet, padded) *)

B64T == [i \in 0..63 |->
           IF i < 26 THEN 65 + i
           ELSE IF i < 52 THEN 71 + i
           ELSE IF i < 62 THEN i - 4
           ELSE IF i = 62 THEN 43 ELSE 47]

B64Of(b) ==
  LET n == Len(b)
      g == (n + 2) \div 3
  IN  [j \in 1..(4 * g) |->
         LET k == (j - 1) \div 4       \* group
             q == (j - 1) % 4
             x == ByteAt(b, 3 * k)
             y == ByteAt(b, 3 * k + 1)
             z == ByteAt(b, 3 * k + 2)
             have == n - 3 * k         \* bytes in this group (may exceed 3)
         IN  IF q = 0 THEN B64T[x \div 4]
             ELSE IF q = 1 THEN B64T[(x % 4) * 16 + y \div 16]
             ELSE IF q = 2 THEN IF have < 2 THEN 61
                                ELSE B64T[(y % 16) * 4 + z \div 64]
             ELSE IF have < 3 THEN 61 ELSE B64T[z % 64]]

B64Val(c) == IF c >= 65 /\ c <= 90 THEN c - 65
             ELSE IF c >= 97 /\ c <= 122 THEN c - 71
             ELSE IF c >= 48 /\ c <= 57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1

\* strict standard decoding, except that CR and LF are ignored and unused
\* trailing bits are not checked: [ok, v]
ParseB64(text) ==
  LET t == SelectSeq(text, LAMBDA c : c # 10 /\ c # 13)
      n == Len(t)
      pad == IF n >= 2 /\ t[n] = 61 /\ t[n - 1] = 61 THEN 2
             ELSE IF n >= 1 /\ t[n] = 61 THEN 1 ELSE 0
      good == n % 4 = 0 /\ (\A i \in 1..(n - pad) : B64Val(t[i]) >= 0)
      val(i) == IF i <= n - pad THEN B64Val(t[i]) ELSE 0
  IN  IF ~good THEN [ok |-> FALSE, v |-> <<>>]
      ELSE [ok |-> TRUE,
            v |-> [j \in 1..((n \div 4) * 3 - pad) |->
                     LET k == 4 * ((j - 1) \div 3)
                         q == (j - 1) % 3
                     IN  IF q = 0 THEN val(k + 1) * 4 + val(k + 2) \div 16
                         ELSE IF q = 1 THEN (val(k + 2) % 16) * 16 + val(k + 3) \div 4
                         ELSE (val(k + 3) % 4) * 64 + val(k + 4)]]

----------------------------------------------------------------------------
(* Latin-1 <-> UTF-8, and white space *)

Utf8OfLatin1(b) ==
  FoldLeft(LAMBDA acc, c : IF c < 128 THEN Append(acc, c)
                           ELSE acc \o <<192 + c \div 64, 128 + (c % 64)>>,
           <<>>, b)

RECURSIVE Latin1Rec(_, _, _)
Latin1Rec(t, i, acc) ==                \* [ok, v]
  IF i > Len(t) THEN [ok |-> TRUE, v |-> acc]
  ELSE IF t[i] < 128 THEN Latin1Rec(t, i + 1, Append(acc, t[i]))
  ELSE IF t[i] \in {194, 195} /\ i < Len(t) /\ t[i + 1] \in 128..191
       THEN Latin1Rec(t, i + 2, Append(acc, (t[i] - 192) * 64 + t[i + 1] - 128))
  ELSE [ok |-> FALSE, v |-> <<>>]

Latin1OfUtf8(t) ==
  IF \A i \in 1..Len(t) : t[i] < 128 THEN [ok |-> TRUE, v |-> t]
  ELSE Latin1Rec(t, 1, <<>>)

\* well-formed UTF-8: st = [n, lo, hi]: continuation bytes to come and the range
\* of the next one, n = -1 after an error.  (U+FFFE and U+FFFF, which XML
\* excludes, are not accepted.)
ValidUtf8(t) ==
  LET step(st, c) ==
        IF st.n < 0 THEN st
        ELSE IF st.n > 0 THEN
          IF c < st.lo \/ c > st.hi THEN [st EXCEPT !.n = -1]
          ELSE [n |-> st.n - 1, lo |-> 128, hi |-> IF st.f /\ st.n = 2 /\ c = 191 THEN 189 ELSE 191,
                f |-> st.f /\ st.n = 2 /\ c = 191]
        ELSE IF c < 128 THEN st
        ELSE IF c \in 194..223 THEN [n |-> 1, lo |-> 128, hi |-> 191, f |-> FALSE]
        ELSE IF c = 224 THEN [n |-> 2, lo |-> 160, hi |-> 191, f |-> FALSE]
        ELSE IF c = 237 THEN [n |-> 2, lo |-> 128, hi |-> 159, f |-> FALSE]
        ELSE IF c \in 225..239 THEN [n |-> 2, lo |-> 128, hi |-> 191, f |-> c = 239]
        ELSE IF c = 240 THEN [n |-> 3, lo |-> 144, hi |-> 191, f |-> FALSE]
        ELSE IF c \in 241..243 THEN [n |-> 3, lo |-> 128, hi |-> 191, f |-> FALSE]
        ELSE IF c = 244 THEN [n |-> 3, lo |-> 128, hi |-> 143, f |-> FALSE]
        ELSE [st EXCEPT !.n = -1]
  IN  (\A i \in 1..Len(t) : t[i] < 128)
      \/ FoldLeft(step, [n |-> 0, lo |-> 128, hi |-> 191, f |-> FALSE], t).n = 0

IsSpaceByte(c) == c \in {9, 10, 11, 12, 13, 32}

RECURSIVE TrimL(_)
TrimL(t) == IF t # <<>> /\ IsSpaceByte(t[1]) THEN TrimL(Tail(t))
            \* U+0085 and U+00A0 are white space, too
            ELSE IF Len(t) >= 2 /\ t[1] = 194 /\ t[2] \in {133, 160}
                 THEN TrimL(SubSeq(t, 3, Len(t)))
            ELSE t
RECURSIVE TrimR(_)
TrimR(t) == LET n == Len(t)
            IN  IF n > 0 /\ IsSpaceByte(t[n]) THEN TrimR(SubSeq(t, 1, n - 1))
                ELSE IF n >= 2 /\ t[n - 1] = 194 /\ t[n] \in {133, 160}
                     THEN TrimR(SubSeq(t, 1, n - 2))
                ELSE t
Trim(t) == TrimR(TrimL(t))

----------------------------------------------------------------------------
(* CRC_32 of MPEG-2 (ISO/IEC 13818-1 Annex A): polynomial 0x04C11DB7, MSB   *)
(* first, initial value all ones, no final inversion.  The register is a   *)
(* pair of 16-bit halves; the table is derived from the polynomial.        *)

PolyHi == 1217                         \* 0x04C1
PolyLo == 7607                         \* 0x1DB7

CrcShift(r) ==
  LET hi == (r[1] % 32768) * 2 + r[2] \div 32768
      lo == (r[2] % 32768) * 2
  IN  IF r[1] >= 32768 THEN <<hi ^^ PolyHi, lo ^^ PolyLo>> ELSE <<hi, lo>>

CrcShift8(r) == FoldLeft(LAMBDA a, i : CrcShift(a), r, <<1, 2, 3, 4, 5, 6, 7, 8>>)

\* built by Append to be a tuple, and without RECURSIVE: TLC evaluates it once
CrcTable == FoldLeft(LAMBDA t, i : Append(t, CrcShift8(<<i * 256, 0>>)),
                     <<>>, [i \in 1..256 |-> i - 1])

CrcStep(r, x) ==
  LET t == CrcTable[((r[1] \div 256) ^^ x) + 1]
  IN  <<((r[1] % 256) * 256 + r[2] \div 256) ^^ t[1],
        ((r[2] % 256) * 256) ^^ t[2]>>

CrcReg(b) == FoldLeft(CrcStep, <<65535, 65535>>, b)

CrcBytes(b) ==
  LET r == CrcReg(b)
  IN  <<r[1] \div 256, r[1] % 256, r[2] \div 256, r[2] % 256>>

\* a section carries a valid CRC_32 in its last four bytes
CrcValid(b) ==
  /\ Len(b) >= 4
  /\ CrcBytes(SubSeq(b, 1, Len(b) - 4)) = SubSeq(b, Len(b) - 3, Len(b))
=============================================================================
