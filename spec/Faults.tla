------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Damage to sections.  For some sections of the generator: every prefix,  *)
(* every flipped bit, bursts of up to 32 bits, every byte set to boundary  *)
(* values, left out, doubled, and bytes added at the end; with the old     *)
(* CRC_32 and with a correct one.  The invariants say what a decoder must  *)
(* notice and what it must keep.                                           *)
(***************************************************************************)
EXTENDS Gen

Classes == {"none", "overflow", "underflow", "crc"}

\* the section with a CRC_32 that fits
Fixed(s) == IF Len(s) < 4 THEN s ELSE LET t == SubSeq(s, 1, Len(s) - 4) IN t \o CrcBytes(t)

RECURSIVE XorBits(_, _, _)
XorBits(a, c, bit) == IF bit = 256 THEN 0
                      ELSE (IF ((a \div bit) % 2) # ((c \div bit) % 2) THEN bit ELSE 0) + XorBits(a, c, bit * 2)
FlipAt(s, n) == [s EXCEPT ![(n \div 8) + 1] = XorBits(@, Pow2(7 - (n % 8)), 1)]
\* flip the bits of the set
FlipAll(s, bits) == FoldLeft(LAMBDA a, n : IF n < 8 * Len(s) THEN FlipAt(a, n) ELSE a, s, SetToSeq(bits))
SetAt(s, i, x) == [s EXCEPT ![i + 1] = x % 256]
LeaveOut(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Double(s, i) == SubSeq(s, 1, i + 1) \o SubSeq(s, i + 1, Len(s))

Masks == <<{0, 31}, 0..31, {0, 1}, {0, 15, 16}, {0, 7, 8, 23, 30}, {0, 2, 3, 11, 29, 31}, {0, 13}>>

\* the damaged versions of s of a kind: [at, b], at: the first byte that differs
Damage(s, kind) ==
  LET n == Len(s) IN
  CASE kind = "cut" -> [i \in 1..n |-> [at |-> i - 1, b |-> SubSeq(s, 1, i - 1)]]
    [] kind = "cutfix" -> [i \in 1..(n - 5) |-> [at |-> i - 1, b |-> Fixed(SubSeq(s, 1, i + 3))]]
    [] kind = "flip" -> [i \in 1..(8 * n) |-> [at |-> (i - 1) \div 8, b |-> FlipAt(s, i - 1)]]
    [] kind = "flipfix" -> [i \in 1..(8 * (n - 4)) |-> [at |-> (i - 1) \div 8, b |-> Fixed(FlipAt(s, i - 1))]]
    [] kind = "burst" -> [i \in 1..(2 * n) |->
         LET from == ((i * 37) + Seed) % (8 * n - 31)
         IN  [at |-> from \div 8,
              b |-> FlipAll(s, {from + k : k \in Masks[(i % Len(Masks)) + 1]})]]
    [] kind = "byte" -> [i \in 1..(6 * (n - 4)) |->
         LET k == (i - 1) \div 6
             x == <<0, 255, 128, 1, s[k + 1] + 1, s[k + 1] + 255>>[((i - 1) % 6) + 1]
         IN  [at |-> k, b |-> Fixed(SetAt(s, k, x))]]
    [] kind = "omit" -> [i \in 1..(n - 4) |-> [at |-> i - 1, b |-> Fixed(LeaveOut(s, i - 1))]]
    [] kind = "double" -> [i \in 1..(n - 4) |-> [at |-> i - 1, b |-> Fixed(Double(s, i - 1))]]
    [] kind = "more" -> [i \in 1..10 |->
         LET t == s \o FillBytes(Mixed, (i + 1) \div 2, 77)
         IN  [at |-> n - 4, b |-> IF i % 2 = 0 THEN Fixed(t) ELSE t]]

DamageKinds == <<"cut", "cutfix", "flip", "flipfix", "burst", "byte", "omit", "double", "more">>

\* byte offsets behind the command and behind every descriptor of section s
CommandEnd(s) ==
  LET h == ParseHeader(s)
  IN  14 + (IF h.command_length = LegacyLength
            THEN ParseCommand(h.command_type, SliceAt(s, 14, Len(s))).used \div 8 ELSE h.command_length)
RECURSIVE Ends(_, _, _)
Ends(s, i, last) == IF i >= last THEN <<>> ELSE <<i + 2 + ByteAt(s, i + 1)>> \o Ends(s, i + 2 + ByteAt(s, i + 1), last)
DescriptorEnds(s) == LET e == CommandEnd(s) IN Ends(s, e + 2, e + 2 + GetN(s, 8 * e, 16))

----------------------------------------------------------------------------
VARIABLES cur

Bases == atoi(IOEnv.BASES)
BasePattern(i) == [pat |-> IF i % 3 = 0 THEN "top" ELSE "seq", ones |-> i % 2 = 0]
Init == cur \in {[k |-> "base", i |-> i, d |-> d] : i \in 1..Bases, d \in 1..Len(DamageKinds)}

Piece == 24
Choose1 ==
  /\ cur.k = "base"
  /\ \E x \in {Frame(BasePattern(cur.i), (cur.i * 1687) + (Seed * 7919))} :
     \E fs \in {Damage(x.b, DamageKinds[cur.d])} :
     \E i \in 1..((Len(fs) + Piece - 1) \div Piece) :
       cur' = [k |-> "piece", i |-> cur.i, n |-> i, d |-> cur.d, x |-> x, ce |-> CommandEnd(x.b), de |-> DescriptorEnds(x.b),
               fs |-> SubSeq(fs, ((i - 1) * Piece) + 1, IF i * Piece > Len(fs) THEN Len(fs) ELSE i * Piece)]

\* decode the intact section in between; look at what is left of every third
SessionOf(c) ==
  [n |-> 2, ops |-> FlattenSeq([i \in 1..Len(c.fs) |->
     <<Dec(1 + (i % 2), c.fs[i].b)>>
       \o (IF (i + Seed) % 3 = 0
           THEN <<Op("json", 1 + (i % 2), 0), Op("xml", 1 + (i % 2), 0), Op("encode", 1 + (i % 2), 0)>>
           ELSE <<>>)
       \o (IF i % 8 = 0 THEN <<Dec(1, c.x.b), Op("table", 1, 0)>> ELSE <<>>)])]
File(c) == IOEnv.OUT_DIR \o "/" \o DamageKinds[c.d] \o ToString(c.i) \o "-" \o ToString(c.n) \o ".ndjson"
Choose2 ==
  /\ cur.k = "piece"
  /\ ndJsonSerialize(File(cur), <<SessionOf(cur)>>)
  /\ \E i \in 1..Len(cur.fs) :
       cur' = [k |-> "damaged", kind |-> DamageKinds[cur.d], x |-> cur.x, ce |-> cur.ce, de |-> cur.de, f |-> cur.fs[i],
               r |-> DecodeSection(cur.fs[i].b)]
Next == Choose1 \/ Choose2

Damaged == cur.k = "damaged"
\* 0.  With 1 the last invariant claims too much and must fail
Slack == atoi(IOEnv.SLACK)
\* every input has an outcome, which is a value or one of the errors
Total == Damaged => cur.r.errs # {} /\ cur.r.errs \subseteq Classes
\* a section is accepted only with a correct CRC_32
Sound == Damaged => ("none" \in cur.r.errs => CrcValid(cur.f.b))
\* no burst of up to 32 bits is accepted
Detected == Damaged => (cur.kind \in {"flip", "burst"} => "none" \notin cur.r.errs)
\* what lies before the damage is kept
HeaderOf(v) == [v EXCEPT !.cmd = NoCommand, !.descs = <<>>]
KeepsHeader == Damaged => (cur.f.at >= 14 /\ cur.r.stage # "nothing" => HeaderOf(cur.r.sig) = HeaderOf(cur.x.v))
KeepsCommand == Damaged => (cur.f.at >= cur.ce + 2 /\ cur.r.stage # "nothing"
                              => cur.r.stage \in {"descs", "all"} /\ cur.r.sig.cmd = cur.x.v.cmd)
KeepsDescriptors ==
  Damaged => (cur.f.at >= cur.ce + 2 /\ cur.r.stage # "nothing" =>
    \A i \in 1..Len(cur.de) : cur.f.at + Slack >= cur.de[i] =>
      /\ i \notin cur.r.bad
      /\ Len(cur.r.sig.descs) >= i
      /\ cur.r.sig.descs[i] = cur.x.v.descs[i])
=============================================================================
