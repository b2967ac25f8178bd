-------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* The code tables of SCTE 35: all codes and what is said about them, and  *)
(* signals that use each of them.                                          *)
(***************************************************************************)
EXTENDS Gen, Derived

Step == atoi(IOEnv.STEP)               \* signals for every how many codes
Row(rows, c) == SelectSeq(rows, LAMBDA r : r[1] = c)
Known(rows) == {rows[i][1] : i \in 1..Len(rows)}

Ends(t, x) == Len(t) >= Len(x) /\ SubSeq(t, Len(t) - Len(x) + 1, Len(t)) = x

Texts == <<"", "10.5237/AAAA", "10.5238/AAAA", "10.5239/1", "10.5240/0000", "10.52", "10.5241/1", "x">>
Far == <<256, 257, 300, 512, 560, 4096, 65536, 65584, 16777216, 2147483647>>
NamesOp(c, t) == [op |-> "names", s |-> 1, from |-> 0, n |-> c, b |-> StrBytes(t)]
Asking(c) == [n |-> 1, ops |-> [i \in 1..8 |-> NamesOp(c, Texts[i])]]

\* signals with code c in every field that takes codes
SegWith(c, sub) ==
  [DescSyntax["segmentation_descriptor"].init EXCEPT
     !.cancel = FALSE, !.event_id = <<0, c>>, !.type_id = c, !.segment_num = 1, !.restricted = (c % 2 = 0),
     !.device_restrictions = IF c % 2 = 0 THEN (c \div 2) % 4 ELSE 0,
     !.has_duration = (c % 3 = 0), !.duration = IF c % 3 = 0 THEN <<c, c * 7>> ELSE Zero,
     !.upids = <<UpidOf(IF c = 13 THEN 9 ELSE c, IF c = 10 THEN <<20, 116 + (Seed % 6), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>> ELSE <<49, 0, 50, 200, 47, 51, 52, 53>>)>>,
     !.components = IF c % 5 = 0 THEN <<[tag |-> c, pts_offset |-> <<1, c>>]>> ELSE <<>>,
     !.has_sub_num = sub, !.has_sub_exp = sub, !.sub_segment_num = IF sub THEN c ELSE 0,
     !.sub_segments_expected = IF sub THEN 255 - c ELSE 0]
CodeSignal(c) ==
  [Empty EXCEPT !.sap = c % 4, !.alg = IF c % 5 = 1 THEN 0 ELSE c % 64, !.cw = c,
                !.descs = <<SegWith(c, c \in SubSegmentTypes /\ c % 4 = 0), SegWith(c, c \in SubSegmentTypes)>>]
Using(c) == [n |-> 2, ops |-> <<Put(1, CodeSignal(c)), Op("derived", 1, 0), Op("table", 1, 0), Op("encode", 1, 0), Op("decode", 2, 1),
                                Op("derived", 2, 0), Op("table", 2, 0)>>]

VARIABLES cur
Init == cur \in {[k |-> "codes", n |-> n] : n \in 0..15}
File(c) == IOEnv.OUT_DIR \o "/codes" \o ToString(c.n) \o ".ndjson"
Next ==
  /\ cur.k = "codes"
  /\ ndJsonSerialize(File(cur),
       [i \in 1..16 |-> Asking((cur.n * 16) + i - 1)]
       \o LET cs == SelectSeq([i \in 1..16 |-> (cur.n * 16) + i - 1], LAMBDA c : c % Step = 0 \/ c \in Known(SegmentationTypeNames) \/ c \in Known(UpidTypeNames))
          IN  [i \in 1..Len(cs) |-> Using(cs[i])]
       \o (IF cur.n = 0 THEN [i \in 1..Len(Far) |-> Asking(Far[i])] ELSE <<>>))
  /\ cur' \in {[k |-> "code", c |-> (cur.n * 16) + i] : i \in 0..15}

AtCode == cur.k = "code"
\* a code has one name, and a name one code
OneName == AtCode => /\ Len(Row(SegmentationTypeNames, cur.c)) <= 1 /\ Len(Row(UpidTypeNames, cur.c)) <= 1
                     /\ SegmentationTypeName(cur.c) # StrBytes("Unknown") =>
                          \A x \in 0..255 \ {cur.c} : SegmentationTypeName(x) # SegmentationTypeName(cur.c)
\* what starts has an end: the next code, "End" for "Start"
Pairs == AtCode =>
  LET t == SegmentationTypeName(cur.c)
      n == SegmentationTypeName(cur.c + 1)
  IN  (Ends(t, StrBytes(" Start")) /\ cur.c # 23)
        => cur.c % 2 = 0 /\ n = SubSeq(t, 1, Len(t) - 5) \o StrBytes("End")
\* sub-segments only belong to what starts
SubSegments == AtCode /\ cur.c \in SubSegmentTypes => Ends(SegmentationTypeName(cur.c), StrBytes(" Start")) /\ cur.c >= 48
\* a decoder makes one kind of structure of each code
Dispatch == AtCode =>
  /\ CmdKind(cur.c) = "private_command" \/ CmdSyntax[CmdKind(cur.c)].code = cur.c \/ cur.c = 255
  /\ DescKind(CUEI, cur.c) = "private_descriptor" \/ DescSyntax[DescKind(CUEI, cur.c)].code = cur.c
  /\ DescKind(<<67, 5588297>>, cur.c) \in {"private_descriptor", DescKind(CUEI, cur.c)}
=============================================================================
