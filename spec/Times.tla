-------------------------------- MODULE Times -------------------------------
(***************************************************************************)
(* Ticks, durations and splice times: for numbers around every power of    *)
(* two, every decimal power and many multiples, what the conversions must  *)
(* satisfy, and sessions that show whether the library's do.               *)
(*                                                                         *)
(* Rule: how durations become ticks: "up" as specified; "down" and "near"  *)
(* are wrong rules that must break an invariant.                           *)
(***************************************************************************)
EXTENDS Gen, Derived

Rule == IOEnv.RULE
Span == atoi(IOEnv.SPAN)               \* neighbours of each number, and how many multiples
TicksOf(ns) ==
  LET r == DivSmallD(MulSmallD(ns, 9), 100000)
  IN  IF Rule = "down" \/ (Rule = "near" /\ r.r < 50000) THEN r.q ELSE NsToTicks(ns)

\* digits: a - b for a >= b, and comparison
SubD(a, b) ==
  LET n == Len(a)
      y == PadD(b, n)
      r == FoldRight(LAMBDA m, st : LET t == a[m] - y[m] - st.c
                                    IN  [v |-> <<IF t < 0 THEN t + 10 ELSE t>> \o st.v, c |-> IF t < 0 THEN 1 ELSE 0],
                     [m \in 1..n |-> m], [v |-> <<>>, c |-> 0])
  IN  StripZeros(r.v)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
LessD(a, b) == LET x == StripZeros(a)
                   y == StripZeros(b)
               IN  IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLess(x, y)
LeqD(a, b) == ~LessD(b, a)

RECURSIVE Pow2D(_), NatD(_)
Pow2D(n) == IF n = 0 THEN <<1>> ELSE MulSmallD(Pow2D(n - 1), 2)
Ten(n) == <<1>> \o [k \in 1..n |-> 0]
NatD(n) == IF n = 0 THEN <<>> ELSE Append(NatD(n \div 10), n % 10)

Near(d) == {d} \cup {AddD(d, NatD(k)) : k \in 1..Span} \cup {SubD(d, NatD(k)) : k \in {j \in 1..Span : LeqD(NatD(j), d)}}

\* the anchors: [k, n]
MaxTicks == Pow2D(40)
MaxNs == SubD(Pow2D(63), <<1>>)
Anchor(c) ==
  CASE c.k = "pow" -> Pow2D(c.n)
    [] c.k = "ten" -> Ten(c.n)
    \* hours of ticks; days; wraps of 33 bits
    [] c.k = "mul" -> AddD(MulSmallD(NatD(c.n * 7919), 100000), NatD((Seed * 104729) % 99991))
    [] c.k = "wide" -> AddD(MulSmallD(MulSmallD(NatD((c.n * 100003) + Seed), 7919), 1009), NatD(c.n))
    [] c.k = "top" -> SubD(MaxTicks, NatD(c.n * c.n))
TickAnchors == {[k |-> "pow", n |-> x] : x \in 0..40} \cup {[k |-> "ten", n |-> x] : x \in 0..12}
                 \cup {[k |-> x, n |-> y] : x \in {"mul", "wide", "top"}, y \in 1..(4 * Span)}
TicksNear(c) == {t \in Near(Anchor(c)) : LessD(t, MaxTicks)}
\* durations: around the anchors and around the ends of ticks
NsNear(c) == LET x == Anchor(c)
             IN  {d \in Near(x) \cup (IF LessD(x, MaxTicks) THEN Near(TicksToNs(x)) ELSE {}) : LeqD(d, MaxNs)}
NsAnchors == TickAnchors \cup {[k |-> "pow", n |-> x] : x \in 41..63} \cup {[k |-> "ten", n |-> x] : x \in 13..18}

----------------------------------------------------------------------------
(* Calendar: the first and the last second of days *)

DayStride == atoi(IOEnv.DAYS)          \* every how many days
LastDay == 49710                       \* the 2^32 seconds end during this day
MonthDays == {DayOf(y, m, d) : y \in 1980..2116, m \in 1..12, d \in {1, 28}}
\* the days of chunk n of 64
DaysIn64(n) == {d \in 0..LastDay : d % 64 = n /\ (d % DayStride = Seed % DayStride \/ d \in MonthDays \/ d \in {0, LastDay})}
\* seconds of a day as a wide number
SecondOf(d, s) ==                      \* 86400 = 675 * 128
  LET x == d * 675
  IN  AddW(<<x \div 131072, (x % 131072) * 128>>, <<0, s>>)
SecondsOf(d) == {w \in {SecondOf(d, s) : s \in {0, 1, 43200, 86399, (d * 7919) % 86400}} : FitsW(w, 32)}

----------------------------------------------------------------------------
DText(d) == DigitsText(d)
COp(op, d) == [op |-> op, s |-> 1, from |-> 0, d |-> DText(d)]
WOp(op, w) == [op |-> op, s |-> 1, from |-> 0, d |-> DecW(w), n |-> (w[2] * 7) % 199]

VARIABLES cur
Init == cur \in {[k |-> "ticks", c |-> c] : c \in TickAnchors} \cup {[k |-> "ns", c |-> c] : c \in NsAnchors}
                  \cup {[k |-> "days", n |-> n] : n \in 0..63} \cup {[k |-> "sums", n |-> n] : n \in 1..(4 * Span)}

File(name) == IOEnv.OUT_DIR \o "/" \o name \o ".ndjson"
NameOf(c) == c.k \o "-" \o c.c.k \o ToString(c.c.n)
ChunksOf(q, n) == [i \in 1..((Len(q) + n - 1) \div n) |-> SubSeq(q, ((i - 1) * n) + 1, IF i * n > Len(q) THEN Len(q) ELSE i * n)]
Write(name, ops) == ndJsonSerialize(File(name), LET cs == ChunksOf(ops, 60) IN [i \in 1..Len(cs) |-> [n |-> 1, ops |-> cs[i]]])
\* signals with durations: of the break, of n segments
Durs == <<Zero, <<0, 1>>, <<0, 90000>>, <<511, W24 - 1>>, <<512, 0>>, <<65535, W24 - 1>>, <<255, W24 - 1>>, <<256, 0>>, <<3, 7919>> >>
NDurs == 9
BreakOf(n) == IF n = NDurs THEN [SpliceNull0 EXCEPT !.kind = "splice_null"]
              ELSE [CmdSyntax["splice_insert"].init EXCEPT !.cancel = FALSE, !.has_duration = (n < 7), !.duration = IF n < 7 THEN Durs[n + 1] ELSE Zero,
                                                           !.event_id = <<0, n>>]
SegmentOf(n) == [DescSyntax["segmentation_descriptor"].init EXCEPT !.cancel = FALSE, !.has_duration = (n < NDurs),
                                                                 !.duration = IF n < NDurs THEN Durs[n + 1] ELSE Zero]
AvailOf == DescSyntax["avail_descriptor"].init
SumSignal(x) == [Empty EXCEPT !.cmd = BreakOf(x % (NDurs + 1)),
                             !.descs = [k \in 1..((x \div 10) % 4) |->
                                          IF (x + k) % 7 = 0 THEN AvailOf ELSE SegmentOf(((x \div 40) + (k * (x \div 400))) % (NDurs + 1))]]
Next ==
  \/ /\ cur.k = "ticks"
     /\ \E q \in {SetToSeq(TicksNear(cur.c))} :
        /\ Write(NameOf(cur), [i \in 1..Len(q) |-> COp("ticks", q[i])])
        /\ \E i \in 1..Len(q) : cur' = [k |-> "t", t |-> q[i]]
  \/ /\ cur.k = "ns"
     /\ \E q \in {SetToSeq(NsNear(cur.c))} :
        /\ Write(NameOf(cur), [i \in 1..Len(q) |-> COp("ns", q[i])])
        /\ \E i \in 1..Len(q) : cur' = [k |-> "d", d |-> q[i]]
  \/ /\ cur.k = "days"
     /\ \E q \in {SetToSeq(UNION {SecondsOf(d) : d \in DaysIn64(cur.n)})} :
        /\ Write("days" \o ToString(cur.n), [i \in 1..Len(q) |-> WOp("gps", q[i])])
        /\ \E i \in 1..Len(q) : cur' = [k |-> "sec", w |-> q[i]]
  \/ /\ cur.k = "sums"
     /\ \E q \in {[i \in 1..10 |-> SumSignal((i - 1) + (10 * ((cur.n * 397) + Seed)))]} :
        /\ Write("sums" \o ToString(cur.n), [i \in 1..20 |-> IF i % 2 = 1 THEN Put(1, q[(i + 1) \div 2]) ELSE Op("dur", 1, 0)])
        /\ \E i \in 1..10 : cur' = [k |-> "sum", v |-> q[i]]

----------------------------------------------------------------------------
AtTick == cur.k = "t"
AtNs == cur.k = "d"
AtSec == cur.k = "sec"

\* a duration and back is the same tick count
RoundTrip == AtTick => TicksOf(TicksToNs(cur.t)) = cur.t
\* the largest number of ns that is not more: 9 ns <= 100000 t < 9 (ns + 1)
Largest == AtTick => LET ns == TicksToNs(cur.t)
                         x == MulSmallD(cur.t, 100000)
                     IN  LeqD(MulSmallD(ns, 9), x) /\ LessD(x, MulSmallD(AddD(ns, <<1>>), 9))
\* one tick more is more
Grows == AtTick => LessD(TicksToNs(cur.t), TicksToNs(AddD(cur.t, <<1>>)))
\* the smallest tick count that covers a duration
Smallest == AtNs => LET t == TicksOf(cur.d)
                    IN  /\ LeqD(MulSmallD(cur.d, 9), MulSmallD(t, 100000))
                        /\ t # <<>> => LessD(MulSmallD(SubD(t, <<1>>), 100000), MulSmallD(cur.d, 9))
\* the duration of the break, if there is one, or else the sum of the others
Sums == cur.k = "sum" =>
  LET d == DurationDigits(cur.v)
      ds == SelectSeq(cur.v.descs, LAMBDA x : x.kind = "segmentation_descriptor")
  IN  IF cur.v.cmd.kind = "splice_insert" /\ cur.v.cmd.has_duration THEN StripZeros(d) = StripZeros(Digits(cur.v.cmd.duration))
      ELSE \A i \in 1..Len(ds) : ds[i].has_duration => LeqD(Digits(ds[i].duration), d)
\* an instant is written and read back, as UTC and with any offset
Calendar == AtSec => LET t == Rfc3339(cur.w)
                         r == ParseRfc3339(t)
                     IN  /\ r.ok /\ r.v = cur.w
                         /\ Len(t) = 20
Zones == AtSec => \A z \in {<<43, 48, 49, 58, 51, 48>>, <<45, 49, 49, 58, 48, 48>>} :
            \* the same clock reading elsewhere is another instant
            LET t == Rfc3339(cur.w)
                r == ParseRfc3339(SubSeq(t, 1, 19) \o z)
            IN  r.ok => r.v # cur.w
=============================================================================
