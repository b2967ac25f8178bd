-------------------------------- MODULE Upids -------------------------------
(***************************************************************************)
(* segmentation_upid(): every type with contents of many lengths and       *)
(* patterns, alone and in pairs.  The invariants say that text and format  *)
(* identifier hold the whole content; the sessions show whether the        *)
(* library's do.                                                           *)
(*                                                                         *)
(* Rule: "good", or a wrong way of reading: "trim" (white space is cut     *)
(* off), "ascii" (only seven bits), "short" (an ISAN ends at a zero byte). *)
(***************************************************************************)
EXTENDS Gen

Rule == IOEnv.RULE
Read(t, b) ==
  LET u == UpidOf(t, b)
  IN  CASE Rule = "trim" -> [u EXCEPT !.text = Trim(u.text)]
        [] Rule = "ascii" -> UpidOf(t, [k \in 1..Len(b) |-> b[k] % 128])
        [] Rule = "short" -> IF t = TypeISAN /\ b # <<>> /\ b[Len(b)] = 0 THEN UpidOf(t, SubSeq(b, 1, Len(b) - 1)) ELSE u
        [] OTHER -> u

Bound == atoi(IOEnv.BOUND)             \* the longest content, and how many pairs
\* contents by number: the pattern is x % NPats, the length x \div NPats
NPats == 14
Vary(x, n) == [k \in 1..n |-> ((x * 37) + (k * 101) + (Seed * 53)) % 256]
Spaces == <<32, 9, 10, 13, 160, 133, 0, 11>>
ContentOf(x) ==
  LET n == x \div NPats
      p == x % NPats
  IN  CASE p = 0 -> [k \in 1..n |-> 0]
        [] p = 1 -> [k \in 1..n |-> 255]
        [] p = 2 -> Vary(x, n)
        [] p = 3 -> Letters(n, x)
        [] p = 4 -> [k \in 1..n |-> IF k = (n + 1) \div 2 THEN 47 ELSE 48 + (k % 10)]
        [] p = 5 -> [k \in 1..n |-> IF k \in {1, n} THEN Spaces[(x % 8) + 1] ELSE 97 + (k % 26)]
        [] p = 6 -> [k \in 1..n |-> IF k % 2 = 1 THEN 195 ELSE 169]
        [] p = 7 -> [k \in 1..n |-> IF k = n THEN 0 ELSE 128 + k]
        [] p = 8 -> [k \in 1..n |-> IF k = 1 THEN 128 ELSE 0]
        [] p = 9 -> [k \in 1..n |-> IF k = n THEN 1 ELSE 0]
        [] p = 10 -> [k \in 1..n |-> (k + x) % 32]
        [] p = 11 -> [k \in 1..n |-> 251 + ((k + x) % 5)]
        [] p = 12 -> SubSeq(<<20, 116 + (Seed % 7)>> \o Vary(x, n), 1, n)
        [] p = 13 -> [k \in 1..n |-> IF k % 4 = 0 THEN 38 ELSE <<60, 62, 34>>[(k % 4)]]

\* contents that the standard prescribes for the type
Prescribed(t, b) == CASE t = TypeEIDR -> Len(b) = 12 [] t = TypeTI -> Len(b) = 8 [] t = TypeMPU -> Len(b) >= 4 [] OTHER -> TRUE

----------------------------------------------------------------------------
\* a section with these UPIDs, [t, b] each
Segment(us) ==
  LET body == FoldLeft(LAMBDA a, u : a \o <<u.t, Len(u.b)>> \o u.b, <<>>, us)
      up == IF us = <<>> THEN <<0, 0>>
            ELSE IF Len(us) = 1 THEN body ELSE <<TypeMID, Len(body)>> \o body
      init == DescSyntax["segmentation_descriptor"].init
  IN  [v |-> [init EXCEPT !.cancel = FALSE, !.event_id = <<1, 2>>, !.restricted = FALSE,
                          !.upids = [k \in 1..Len(us) |-> UpidOf(us[k].t, us[k].b)], !.type_id = 16, !.segment_num = 3,
                          !.segments_expected = 4],
       b |-> <<1, 0, 0, 2, 127, 191>> \o up \o <<16, 3, 4>>]
\* event_id <<1, 2>> is 0x01000002
SectionHolding(uss) ==
  SectionOf(Mixed, NullCommand,
            [k \in 1..Len(uss) |-> Framed("segmentation_descriptor",
                LET g == Segment(uss[k]) IN [v |-> g.v, b |-> g.b, s |-> FALSE], 2, CUEI)], <<>>, "plain")
Item(t, x) == [t |-> t, b |-> ContentOf(x)]

\* texts that could be taken for something else: a number, another encoding,
\* another kind of UPID, markup
Lookalikes ==
  <<"0x4142", "4142", "DEADBEEF", "MTIz", "AAAA", "0", "007", "-1", "1.0", "1e5", "12345678", "18446744073709551616", "true", "null",
    "{}", "[]", "<a/>", "&amp;x", "&#65;", "%41%42", "%s", "urn:uuid:01234567-89ab-cdef-0123-456789abcdef",
    "10.5240/F85A-E100-B068-5B8F-D1C8-T", "PO:0:2:4", "text", "base-64", "a b", "a  b", "A=B">>
LooksLike(t) == {[t |-> t, b |-> StrBytes(Lookalikes[i])] : i \in 1..Len(Lookalikes)}

UpidOp(u) == [op |-> "upid", s |-> 1, from |-> 0, b |-> u.b, n |-> u.t]
Alone(us) == [n |-> 1, ops |-> [k \in 1..Len(us) |-> UpidOp(us[k])]]
Whole(b) == [n |-> 4, ops |-> <<Dec(1, b), Op("encode", 1, 0), Op("decode", 2, 1), Op("derived", 1, 0), Op("json", 1, 0),
                                Op("unjson", 3, 1), Op("encode", 3, 0), Op("xml", 2, 0), Op("unxml", 4, 2), Op("encode", 4, 0)>>]

VARIABLES cur
Special == {4, 5, 6, 8, 9, 10, 12, 15, 17}
Init == cur \in {[k |-> "type", t |-> t] : t \in 0..255}
Lengths(t) == IF t \in Special THEN 0..Bound ELSE {0, 1, 4, 8, 12, (t % 16) + 1}
Items(t) == {Item(t, (n * NPats) + p) : n \in Lengths(t), p \in 0..(NPats - 1)}
              \cup (IF t \in Special \cup {1, 14} THEN {[t |-> t, b |-> <<x>>] : x \in 0..255} ELSE {})
              \cup (IF t \in {1, 3, 7, 9, 13, 14, 15, 16, 200} THEN LooksLike(t) ELSE {})
              \cup (IF t \in Special THEN {Item(t, (n * NPats) + p) : n \in {63, 200, 239}, p \in {2, 5}} ELSE {})
\* lists: each of the special types with others
Others == <<9, 8, 10, 12, 6, 1, 0, 255, 15>>
Mate(t, x) == Item(Others[((x + t) % 9) + 1], (((x * 5) + t) % 13 * NPats) + ((x * 3) % NPats))
Lists(t) == IF t = TypeMID \/ t \notin Special \cup {0, 1, 14, 200} THEN {}
            ELSE {<<Item(t, ((x % 16) * NPats) + (x % NPats)), Mate(t, x)>> : x \in 1..Bound}
                   \cup {<<Mate(t, x + 1), Item(t, ((x % 13) * NPats) + ((x + 5) % NPats)), Mate(t, x)>> : x \in 1..(Bound \div 2)}
File(c) == IOEnv.OUT_DIR \o "/u" \o ToString(c.t) \o ".ndjson"
Next ==
  /\ cur.k = "type"
  /\ \E q \in {SetToSeq(Items(cur.t))} : \E ls \in {SetToSeq(Lists(cur.t))} :
       /\ ndJsonSerialize(File(cur),
            (LET n == (Len(q) + 39) \div 40
             IN  [i \in 1..n |-> Alone(SubSeq(q, ((i - 1) * 40) + 1, IF i = n THEN Len(q) ELSE i * 40))])
            \o (IF cur.t = TypeMID THEN <<>>
                ELSE LET r == SelectSeq(q, LAMBDA u : Len(u.b) < 100)
                         n == (Len(r) + 7) \div 8
                     IN  [i \in 1..n |-> Whole(SectionHolding([k \in 1..(IF i = n THEN Len(r) - ((n - 1) * 8) ELSE 8) |-> <<r[((i - 1) * 8) + k]>>]).b)])
            \o [i \in 1..Len(ls) |-> Whole(SectionHolding(<<ls[i]>>).b)])
       /\ cur' \in {[k |-> "upid", u |-> q[i]] : i \in 1..Len(q)} \cup {[k |-> "list", l |-> ls[i]] : i \in 1..Len(ls)}

----------------------------------------------------------------------------
AtUpid == cur.k = "upid"
AtList == cur.k = "list"
\* the bytes come back
NoLoss == AtUpid /\ Prescribed(cur.u.t, cur.u.b) => UpidBytes(Read(cur.u.t, cur.u.b)) = [k |-> "ok", v |-> cur.u.b]
\* the text is valid UTF-8 and of its alphabet
Spelled == AtUpid =>
  LET u == Read(cur.u.t, cur.u.b)
  IN  /\ Prescribed(cur.u.t, cur.u.b) => ValidUtf8(u.text)
      /\ cur.u.t = TypeTI => \A i \in 1..Len(u.text) : IsDigit(u.text[i])
      /\ cur.u.t = TypeEIDR /\ Len(cur.u.b) = 12 => Len(u.text) \in 29..33 /\ SubSeq(u.text, 1, 3) = <<49, 48, 46>>
      /\ u.fmt = FmtB64 <=> cur.u.t \in {TypeISAN, TypeISANDep, TypeMPU}
      /\ u.fi # <<>> <=> cur.u.t = TypeMPU
\* a section with them says them and is written again
Listed == AtList =>
  LET x == SectionHolding(<<cur.l>>)
      d == DecodeSection(x.b)
      e == EncodeSignal(d.sig @@ [stuffing |-> <<>>])
  IN  /\ d.errs = {"none"} /\ d.sig = x.v
      /\ Len(d.sig.descs[1].upids) = Len(cur.l)
      /\ (\A i \in 1..Len(cur.l) : Prescribed(cur.l[i].t, cur.l[i].b)) => e = [k |-> "ok", b |-> x.b]
=============================================================================
