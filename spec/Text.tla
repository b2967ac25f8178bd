-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* TLA+ strings as bytes, decimal numbers of any size, and calendar time.  *)
(***************************************************************************)
EXTENDS Bits, IOUtils

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CharCode == FoldLeft(LAMBDA t, n : t @@ (SubSeq(Printable, n, n) :> (31 + n)),
                     (" " :> 32), [n \in 1..Len(Printable) |-> n])

\* the bytes of an ASCII string
StrBytes(s) == [n \in 1..Len(s) |-> CharCode[SubSeq(s, n, n)]]

IsAscii(t) == \A n \in 1..Len(t) : t[n] < 128

\* the bytes of a boolean
BoolBytes(x) == IF x THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>

\* 0x.. with at least n digits
RECURSIVE HexDigits(_)
HexDigits(x) == IF x < 16 THEN <<HexL[x + 1]>> ELSE Append(HexDigits(x \div 16), HexL[(x % 16) + 1])
Hex0x(x) == <<48, 120>> \o (IF x < 16 THEN <<48>> ELSE <<>>) \o HexDigits(x)
Hex0xW(w) == <<48, 120>> \o HexOf(U32ToBytes(w), HexL)

----------------------------------------------------------------------------
(* Decimal digit vectors, most significant first (digits, not characters)  *)

Digits(w) == LET t == DecW(w) IN [n \in 1..Len(t) |-> t[n] - 48]
DigitsText(d) == LET s == StripZeros(d) IN IF s = <<>> THEN <<48>> ELSE [n \in 1..Len(s) |-> 48 + s[n]]
TextDigits(t) == StripZeros([n \in 1..Len(t) |-> t[n] - 48])

PadD(d, n) == IF Len(d) >= n THEN d ELSE [m \in 1..(n - Len(d)) |-> 0] \o d

AddD(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      x == PadD(a, n)
      y == PadD(b, n)
      r == FoldRight(LAMBDA m, st : LET t == x[m] + y[m] + st.c
                                    IN  [v |-> <<t % 10>> \o st.v, c |-> t \div 10],
                     [m \in 1..n |-> m], [v |-> <<>>, c |-> 0])
  IN  StripZeros(<<r.c>> \o r.v)

MulSmallD(a, k) ==                     \* k < 10^6
  LET r == FoldRight(LAMBDA x, st : LET t == x * k + st.c
                                    IN  [v |-> <<t % 10>> \o st.v, c |-> t \div 10],
                     a, [v |-> <<>>, c |-> 0])
      RECURSIVE carry(_)
      carry(c) == IF c = 0 THEN <<>> ELSE Append(carry(c \div 10), c % 10)
  IN  StripZeros(carry(r.c) \o r.v)

DivSmallD(a, k) == LET r == DivDigits(a, 10, k) IN [q |-> StripZeros(r.q), r |-> r.r]

----------------------------------------------------------------------------
(* Ticks of a 90 kHz clock and durations.  9 ticks are 100000 ns.          *)

\* the largest whole number of nanoseconds not exceeding a number of ticks
TicksToNs(d) == DivSmallD(d \o <<0, 0, 0, 0, 0>>, 9).q

\* the smallest number of ticks covering a number of nanoseconds
NsToTicks(d) ==
  LET r == DivSmallD(MulSmallD(d, 9), 100000)
  IN  IF r.r = 0 THEN r.q ELSE AddD(r.q, <<1>>)

----------------------------------------------------------------------------
(* utc_splice_time: seconds since 1980-01-06T00:00:00Z, as a calendar date *)

\* division of a wide number of seconds by the length of a day
DaySplit(w) ==
  LET r == DivDigits(U32ToBytes(w), 256, 86400)
  IN  [day |-> FoldLeft(LAMBDA a, x : a * 256 + x, 0, r.q), sec |-> r.r]

\* days since 0000-03-01 (proleptic Gregorian) of 1980-01-06
EpochDay == 723125

Civil(day) ==                          \* day: days since 1980-01-06
  LET z == day + EpochDay                \* days since 0000-03-01
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      dd == doy - (153 * mp + 2) \div 5 + 1
      mm == IF mp < 10 THEN mp + 3 ELSE mp - 9
      yy == yoe + era * 400 + (IF mm <= 2 THEN 1 ELSE 0)
  IN  [y |-> yy, m |-> mm, d |-> dd]

TwoDigits(n) == <<48 + n \div 10, 48 + (n % 10)>>
FourDigits(n) == TwoDigits(n \div 100) \o TwoDigits(n % 100)

\* date and time with the separator sep between them, where clocks are m minutes
\* ahead of UTC
LocalDateTime(w, sep, m) ==
  LET u == DaySplit(w)
      t == u.sec + 60 * m
      s == [day |-> u.day + (IF t < 0 THEN -1 ELSE t \div 86400), sec |-> (t + 86400) % 86400]
      c == Civil(s.day)
  IN  FourDigits(c.y) \o <<45>> \o TwoDigits(c.m) \o <<45>> \o TwoDigits(c.d) \o sep
        \o TwoDigits(s.sec \div 3600) \o <<58>> \o TwoDigits((s.sec \div 60) % 60)
        \o <<58>> \o TwoDigits(s.sec % 60)

DateTime(w, sep) == LocalDateTime(w, sep, 0)

\* the zone the library is used in, in minutes ahead of UTC
Zone == IF "ZONE" \in DOMAIN IOEnv THEN atoi(IOEnv.ZONE) ELSE 0
ZoneText(m, sep) ==
  LET a == IF m < 0 THEN -m ELSE m
  IN  <<IF m < 0 THEN 45 ELSE 43>> \o TwoDigits(a \div 60) \o sep \o TwoDigits(a % 60)

Rfc3339(w) == DateTime(w, <<84>>) \o <<90>>

\* days since 1980-01-06 of a calendar date
DayOf(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy % 400
      mp == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN  era * 146097 + doe - EpochDay

DaysIn(y, m) ==
  IF m = 2 THEN IF (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0 THEN 29 ELSE 28
  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* an instant that no utc_splice_time expresses
NoInstant == <<16777215, 16777215>>

Num2(t, n) == (t[n] - 48) * 10 + t[n + 1] - 48

\* RFC 3339 text: [ok, v], v = NoInstant if it is before the epoch or too late
ParseRfc3339(t) ==
  LET n == Len(t)
      digitsAt(s) == \A x \in s : IsDigit(t[x])
      frac == IF n > 20 /\ t[20] = 46 THEN
                 SelectInSeq(SubSeq(t, 21, n), LAMBDA c : ~IsDigit(c)) - 1
              ELSE 0                   \* digits of the fraction
      zp == IF frac > 0 THEN 21 + frac ELSE 20   \* where the zone starts
      utc == n = zp /\ t[n] = 90
      off == n = zp + 5 /\ t[zp] \in {43, 45} /\ digitsAt({zp + 1, zp + 2, zp + 4, zp + 5})
             /\ t[zp + 3] = 58 /\ Num2(t, zp + 1) < 24 /\ Num2(t, zp + 4) < 60
      shape == n >= 20 /\ digitsAt({1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19})
               /\ t[5] = 45 /\ t[8] = 45 /\ t[11] = 84 /\ t[14] = 58 /\ t[17] = 58
  IN  IF ~shape THEN [ok |-> FALSE, v |-> NoInstant]
      ELSE IF ~utc /\ ~off THEN [ok |-> FALSE, v |-> NoInstant]
      ELSE
      LET y == Num2(t, 1) * 100 + Num2(t, 3)
          m == Num2(t, 6)
          d == Num2(t, 9)
          sec == Num2(t, 12) * 3600 + Num2(t, 15) * 60 + Num2(t, 18)
          good == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m) /\ Num2(t, 12) < 24
                  /\ Num2(t, 15) < 60 /\ Num2(t, 18) < 60
          o == IF utc THEN 0
               ELSE (IF t[zp] = 43 THEN -1 ELSE 1) * (Num2(t, zp + 1) * 3600 + Num2(t, zp + 4) * 60)
          s2 == sec + o
          day == DayOf(y, m, d) + (IF s2 < 0 THEN -1 ELSE IF s2 >= 86400 THEN 1 ELSE 0)
          s3 == (s2 + 86400) % 86400
          \* day * 86400 + s3 as a wide number, 86400 = 2^7 * 675
          lo == (day % 131072) * 128     \* (day * 128) mod 2^24
          base == <<(day \div 131072), lo>>
          mul(w) ==                      \* w * 675 + s3
            LET p0 == (w[2] % 4096) * 675 + s3
                p1 == (w[2] \div 4096) * 675 + p0 \div 4096
            IN  <<w[1] * 675 + p1 \div 4096, (p1 % 4096) * 4096 + (p0 % 4096)>>
          v == mul(base)
      IN  IF ~good THEN [ok |-> FALSE, v |-> NoInstant]
          ELSE IF day < 0 \/ v[1] > 255 THEN [ok |-> TRUE, v |-> NoInstant]
          ELSE [ok |-> TRUE, v |-> v]
=============================================================================
