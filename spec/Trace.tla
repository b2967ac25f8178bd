-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks recorded sessions against the specification.                     *)
(*                                                                         *)
(* A session is a sequence of library calls on a few slots, each holding a *)
(* signal.  It is recorded as                                              *)
(*   sigs  the distinct signals observed      (refinement mapping, val.go) *)
(*   bufs  the distinct byte strings          docs  the distinct documents *)
(*   evs   the calls, which refer to these by index                        *)
(* Every event has op, s (the slot), panic and obs: what every slot holds  *)
(* after the call (0: nothing yet).                                        *)
(*                                                                         *)
(* The machine replays the calls on its own state (heap, seen) and labels  *)
(* every deviation of the observation from what the specification says.    *)
(* It then adopts the observed value, so that one deviation is not         *)
(* reported again for every later call.  A slot of the heap:               *)
(*   sig   the index of the signal it holds                                *)
(*   st    its alignment stuffing; stk: whether that is known              *)
(*   org   how it came about: new, decode, json, xml                       *)
(*   src   the byte string it was successfully decoded from, or 0          *)
(*   enc   the section it was encoded to, or 0; e: what the specification  *)
(*         makes of it, <<>> or <<EncodeSignal>>                           *)
(*   json, xml  the documents it was marshalled to, or 0                   *)
(*   twin  the section a signal read from a document must encode to, or 0  *)
(*   memo  the results of the observers called since it last changed       *)
(* seen holds the results of the calls that give a slot a new signal.      *)
(***************************************************************************)
EXTENDS DocRead, Table, Derived, Cli, FiniteSets, Json, IOUtils

F(n) == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace" \o ToString(n) \o ".ndjson")
Tr == <<F(0), F(1), F(2), F(3), F(4), F(5), F(6), F(7)>>

Slot0 == [sig |-> 0, st |-> <<>>, stk |-> TRUE, org |-> "new", src |-> 0, enc |-> 0, e |-> <<>>,
          json |-> 0, xml |-> 0, twin |-> 0, memo |-> {}]

----------------------------------------------------------------------------
(* Comparison *)

UpidsEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : UpidEq(a[i], b[i])
DescEq(a, b) ==
  IF a.kind # b.kind THEN FALSE
  ELSE IF a.kind = "segmentation_descriptor"
  THEN UpidsEq(a.upids, b.upids) /\ [a EXCEPT !.upids = <<>>] = [b EXCEPT !.upids = <<>>]
  ELSE a = b
CmdEq(a, b) == IF a.kind # b.kind THEN FALSE ELSE a = b
DescsEq(a, b, bad) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : i \in bad \/ DescEq(a[i], b[i])
HdrEq(a, b) == a.sap = b.sap /\ a.proto = b.proto /\ a.alg = b.alg /\ a.pts = b.pts
               /\ a.cw = b.cw /\ a.tier = b.tier
SigEq(a, b) == HdrEq(a, b) /\ CmdEq(a.cmd, b.cmd) /\ DescsEq(a.descs, b.descs, {})

\* the UPIDs of two lists of descriptors differ
UpidsOf(ds) == FoldLeft(LAMBDA a, d : IF d.kind = "segmentation_descriptor" THEN Append(a, d.upids) ELSE a, <<>>, ds)
UpidsDiffer(a, b) ==
  LET x == UpidsOf(a)
      y == UpidsOf(b)
  IN  Len(x) # Len(y) \/ \E i \in 1..Len(x) : ~UpidsEq(x[i], y[i])

HasPrivate(s) ==
  s.cmd.kind = "private_command" \/ \E i \in 1..Len(s.descs) : s.descs[i].kind = "private_descriptor"

\* labels of deviations that concern signals with private structures, too
Priv(s, ls) == IF ls # {} /\ HasPrivate(s) THEN ls \cup {"priv." \o l : l \in ls} ELSE ls

If1(c, l) == IF c THEN {l} ELSE {}

----------------------------------------------------------------------------
(* decode *)

\* the bytes a text stands for: [ok, v]
TextBytes(via, t) ==
  IF via = "b64" THEN ParseB64(t)
  ELSE IF via = "hex" THEN
    ParseHex(IF Len(t) >= 2 /\ t[1] = 48 /\ t[2] = 120 THEN SubSeq(t, 3, Len(t)) ELSE t)
  ELSE [ok |-> TRUE, v |-> t]

ZeroSig == [Empty EXCEPT !.sap = 0]

ErrClasses == {"none", "overflow", "underflow", "crc", "encoding"}

\* labels of a decoding of b that reported err and left the signal o
DecodeLabels(d, b, err, o) ==
  LET good == d.errs = {"none"}
      pre == IF good THEN "dec." ELSE "keep."
      hdr == d.stage # "nothing" /\ ~HdrEq(d.sig, o)
      cmd == d.stage \in {"descs", "all"} /\ ~CmdEq(d.sig.cmd, o.cmd)
      descs == d.stage \in {"descs", "all"} /\ ~DescsEq(d.sig.descs, o.descs, d.bad)
      upids == descs /\ Len(d.sig.descs) = Len(o.descs)
               /\ UpidsDiffer([i \in 1..Len(o.descs) |-> IF i \in d.bad THEN [kind |-> "none"] ELSE d.sig.descs[i]],
                              [i \in 1..Len(o.descs) |-> IF i \in d.bad THEN [kind |-> "none"] ELSE o.descs[i]])
      ls == If1(err \notin d.errs, pre \o "err") \cup If1(hdr, pre \o "hdr")
            \cup If1(cmd, pre \o "cmd") \cup If1(descs, pre \o "descs")
            \* nothing that the section does not carry
            \cup If1(o.preroll # Zero, pre \o "preroll")
      legacy == Len(b) >= 14 /\ ParseHeader(b).command_length = LegacyLength
  IN  Priv(d.sig, ls)
      \cup If1(err \notin ErrClasses \ {"encoding"}, "dec.class")
      \cup If1(upids, "upid.decode")
      \cup (IF legacy THEN {"legacy." \o l : l \in ls} ELSE {})

----------------------------------------------------------------------------
(* encode *)

SignalWith(s, st) == s @@ [stuffing |-> st]

\* the encoding of slot h, whose signal is o
Encoding(h, o) == IF h.e # <<>> THEN h.e[1] ELSE EncodeSignal(SignalWith(o, h.st))

\* a list that is too long for its count, though it would not be written
Excess(s) ==
  \/ s.cmd.kind = "splice_insert" /\ Len(s.cmd.components) > 255
  \/ s.cmd.kind = "splice_schedule" /\ \E i \in 1..Len(s.cmd.events) : Len(s.cmd.events[i].components) > 255
  \/ \E i \in 1..Len(s.descs) : s.descs[i].kind = "segmentation_descriptor"
                                 /\ (Len(s.descs[i].components) > 255 \/ UpidLength(s.descs[i].upids) > 255
                                     \/ \E j \in 1..Len(s.descs[i].upids) : Len(s.descs[i].upids[j].text) > 255)

\* a private_descriptor with the standard's own identifier and one of its tags,
\* or a tag that may be one without its upper bits
Masked(s) == \E i \in 1..Len(s.descs) :
                LET d == s.descs[i]
                IN  /\ d.kind = "private_descriptor" /\ d.identifier = CUEI
                    /\ d.tag \notin 0..255 \/ DescKind(CUEI, d.tag) # "private_descriptor"

\* the lengths and counts of section b agree
WellFramed(b) ==
  LET d == DecodeSection(b)
  IN  d.errs = {"none"}
      /\ GetN(b, 12, 12) = Len(b) - 3
      \* re-encoding what it says has the same length
      /\ GetN(b, 96, 12) # LegacyLength

\* labels of an encoding out of slot h by the specification e
EncodeLabels(h, o, e, err, out, pre) ==
  IF err # "none" THEN
    Priv(o, If1(e.k \in {"ok", "ecrc"} /\ h.stk /\ ~Excess(o), pre \o "refused"))
  ELSE IF e.k = "refuse" THEN {pre \o "accept"}
  ELSE
  LET same == e.k = "ok" /\ h.stk /\ out = e.b
      wrong == /\ ~same
               /\ \/ e.k = "ok" /\ h.stk
                  \* everything up to E_CRC_32
                  \/ e.k = "ecrc" /\ h.stk
                     /\ ~(Len(out) = Len(e.b) + 8 /\ SubSeq(out, 1, Len(e.b)) = e.b)
      frame == ~same /\ ~Masked(o) /\ ~WellFramed(out)
      upids == wrong /\ UpidsDiffer(DecodeSection(out).sig.descs,
                                    DecodeSection(IF e.k = "ok" THEN e.b ELSE e.b \o <<0, 0, 0, 0, 0, 0, 0, 0>>).sig.descs)
  IN  Priv(o, If1(wrong, pre \o "bytes") \cup If1(frame, pre \o "frame"))
      \cup If1(upids, "upid.encode")

\* re-encoding a canonical section gives the same bytes
ReencodeLabels(h, bufs, out) ==
  IF h.src = 0 \/ bufs[h.src] = out THEN {}
  ELSE LET d == DecodeSection(bufs[h.src])
           e == EncodeSignal(SignalWith(d.sig, d.stuffing))
       IN  If1(d.errs = {"none"} /\ e.k = "ok" /\ e.b = bufs[h.src], "rt.bytes")

----------------------------------------------------------------------------
(* Round trips *)

\* decoding what slot h was encoded to gave o
BinaryRoundTrip(h, s, err, o) ==
  LET e == Encoding(h, s)
      d == DecodeSection(e.b)
  IN  If1(err # "none" /\ ~Masked(s), "rt.bin.err")
      \cup (IF SigEq(s, o) \/ e.k # "ok" THEN {}
            ELSE If1(~SigEq(d.sig, o) /\ SigEq([d.sig EXCEPT !.cmd = s.cmd, !.descs = s.descs], s), "rt.bin"))

NoPreroll(s) == [s EXCEPT !.preroll = Zero]

\* reading the JSON of signal s gave o
JsonRoundTrip(s, err, o) ==
  IF ~JsonOk(s) THEN {}
  ELSE IF err # "none" THEN {"rt.json.err"}
  ELSE IF NoPreroll(s) = o THEN {}
  ELSE LET r == SignalOfJson(JsonOf(s)) IN If1(r.ok /\ r.v # o, "rt.json")

XmlRoundTrip(s, err, o) ==
  IF ~XmlOk(s) \/ ~XmlTokens(s) THEN {}
  ELSE IF err # "none" THEN {"rt.xml.err"}
  ELSE IF s = o THEN {}
  ELSE LET r == SignalOfXml(XmlOf(s)) IN If1(r.ok /\ r.v # o, "rt.xml")

----------------------------------------------------------------------------
(* One call.  Judge returns [l, h, k]: the labels, the slot after the call  *)
(* and an entry for seen (or <<>>).  t is the trace, hp the heap.           *)

Observers == {"encode", "b64", "hex", "json", "xml", "table", "dur", "derived", "look", "held"}
Changers == {"new", "edit", "copy", "decode", "unjson", "unxml"}

\* an observer: nothing changes, and the same call has the same result; nor does
\* it matter what happened to a signal before it got its content.  Documents
\* may differ in what they leave out.
Pure(t, hp, e, key, res) ==
  LET h == hp[e.s]
      peers == {i \in 1..Len(hp) : i # e.s /\ hp[i].sig = h.sig /\ hp[i].st = h.st /\ hp[i].stk /\ h.stk}
      differs(m) == m[1] = key /\ m[2] # res
  IN  If1(\E m \in h.memo : differs(m), "pure.result")
      \cup If1(/\ key[1] \notin {"json", "xml"}
               /\ \E i \in peers : \E m \in hp[i].memo : differs(m)
               /\ HasInstants(t.sigs[h.sig].cmd) /\ TableKnown(EncodeParts(SignalWith(t.sigs[h.sig], h.st))), "pure.peer")

Remember(h, key, res) == [h EXCEPT !.memo = h.memo \cup {<<key, res>>}]

JudgeNew(t, hp, e) ==
  [l |-> {}, h |-> [Slot0 EXCEPT !.sig = e.obs[e.s]], k |-> <<>>]

\* the user changes a field; only the stuffing cannot be seen
JudgeEdit(t, hp, e) ==
  [l |-> {}, h |-> [Slot0 EXCEPT !.sig = e.obs[e.s], !.stk = hp[e.s].stk /\ hp[e.s].st = <<>>], k |-> <<>>]

\* an assignment of one signal to another
JudgeCopy(t, hp, e) ==
  [l |-> {}, h |-> [hp[e.from] EXCEPT !.memo = {}], k |-> <<>>]

JudgeDecode(t, hp, e, sn) ==
  LET tb == TextBytes(e.via, t.bufs[e.in])
      b == tb.v
      o == t.sigs[e.obs[e.s]]
      d == DecodeSection(b)
      key == <<"decode", b>>
      res == <<e.err, o>>
      src == IF e.via = "bytes" THEN e.in ELSE 0
      \* slots that were encoded to this very section
      from == {i \in 1..Len(hp) : hp[i].enc # 0 /\ t.bufs[hp[i].enc] = b /\ hp[i].sig # 0}
  IN  IF ~tb.ok THEN
        [l |-> If1(e.err # "encoding", "text.err") \cup If1(o # ZeroSig, "text.sig"),
         h |-> [Slot0 EXCEPT !.sig = e.obs[e.s]], k |-> <<>>]
      ELSE
        [l |-> DecodeLabels(d, b, e.err, o)
               \cup If1(\E m \in sn : m[1] = key /\ m[2] # res, "seen.decode")
               \cup If1(e.via # "bytes" /\ \E m \in sn : m[1] = key /\ m[2] # res, "text.same")
               \cup UNION {BinaryRoundTrip(hp[i], t.sigs[hp[i].sig], e.err, o) : i \in from}
               \cup If1(~e.same, "input.changed"),
         h |-> [Slot0 EXCEPT !.sig = e.obs[e.s], !.org = "decode",
                             !.st = d.stuffing, !.stk = e.err \in {"none", "crc"} /\ d.errs \subseteq {"none", "crc"},
                             !.src = IF e.err = "none" THEN src ELSE 0],
         k |-> <<key, res>>]

JudgeEncode(t, hp, e) ==
  LET h == hp[e.s]
      o == t.sigs[h.sig]
      x == Encoding(h, o)
      out == IF e.out = 0 THEN <<>> ELSE t.bufs[e.out]
  IN  [l |-> EncodeLabels(h, o, x, e.err, out, "enc.")
             \cup ReencodeLabels(h, t.bufs, out)
             \cup If1(h.twin # 0 /\ (e.err # "none" \/ out # t.bufs[h.twin]), "twin." \o h.org)
             \cup Pure(t, hp, e, <<"encode">>, <<e.err, e.out>>),
       h |-> Remember([h EXCEPT !.enc = e.out, !.e = <<x>>], <<"encode">>, <<e.err, e.out>>),
       k |-> <<>>]

JudgeText(t, hp, e) ==
  LET h == hp[e.s]
      o == t.sigs[h.sig]
      x == Encoding(h, o)
      out == t.bufs[e.out]
      r == TextBytes(e.op, out)
      empty == out = <<>>
      \* the texts of what encode returned
      enc == {m[2] : m \in {m2 \in h.memo : m2[1] = <<"encode">>}}
      \* no section is empty, so empty text means that there is none
      agree == \A m \in enc : IF m[1] # "none" THEN empty ELSE r.ok /\ r.v = t.bufs[m[2]]
  IN  [l |-> If1(~r.ok, "text.out") \cup If1(~agree, "text.agree")
             \cup (IF ~r.ok THEN {}
                   ELSE EncodeLabels(h, o, x, IF empty THEN "error" ELSE "none", r.v, "text."))
             \cup Pure(t, hp, e, <<e.op>>, e.out),
       h |-> Remember([h EXCEPT !.e = <<x>>], <<e.op>>, e.out), k |-> <<>>]

DocKind(t, n) == IF n = 0 THEN "none" ELSE t.docs[n].k

JudgeJson(t, hp, e) ==
  LET h == hp[e.s]
      o == t.sigs[h.sig]
      ls == IF ~HasInstants(o.cmd) THEN {}
            ELSE IF e.err # "none" THEN {"json.refused"}
            ELSE IF DocKind(t, e.doc) # "json" THEN {"json.syntax"}
            ELSE IF ~JsonOk(o) \/ JMatch(JsonOf(o), t.docs[e.doc].t) THEN {} ELSE {"json.doc"}
  IN  [l |-> Priv(o, ls) \cup Pure(t, hp, e, <<"json">>, <<e.err, e.doc>>),
       h |-> Remember([h EXCEPT !.json = e.doc], <<"json">>, <<e.err, e.doc>>), k |-> <<>>]

JudgeXml(t, hp, e) ==
  LET h == hp[e.s]
      o == t.sigs[h.sig]
      ls == IF ~HasInstants(o.cmd) THEN {}
            ELSE IF e.err # "none" THEN {"xml.refused"}
            ELSE IF DocKind(t, e.doc) # "xml" THEN {"xml.syntax"}
            ELSE IF ~XmlOk(o) \/ XMatch(XmlOf(o), t.docs[e.doc].t) THEN {} ELSE {"xml.doc"}
  IN  [l |-> Priv(o, ls) \cup Pure(t, hp, e, <<"xml">>, <<e.err, e.doc>>),
       h |-> Remember([h EXCEPT !.xml = e.doc], <<"xml">>, <<e.err, e.doc>>), k |-> <<>>]

\* reading a document, kind "json" or "xml"
JudgeUnmarshal(t, hp, e, sn, kind) ==
  LET d == t.docs[e.doc]
      o == t.sigs[e.obs[e.s]]
      r == IF d.k = "bad" THEN Bad
           ELSE IF kind = "json" THEN SignalOfJson(d.t) ELSE SignalOfXml(d.t)
      failed == e.err # "none"
      key == <<"un" \o kind, e.doc>>
      res == IF failed THEN <<e.err>> ELSE <<e.err, o>>
      own == {i \in 1..Len(hp) : hp[i].sig # 0 /\ e.doc = (IF kind = "json" THEN hp[i].json ELSE hp[i].xml)}
      trip(i) == IF kind = "json" THEN JsonRoundTrip(t.sigs[hp[i].sig], e.err, o)
                 ELSE XmlRoundTrip(t.sigs[hp[i].sig], e.err, o)
      trips == \A i \in own : LET s == t.sigs[hp[i].sig]
                              IN  IF kind = "json" THEN JsonOk(s) ELSE XmlOk(s) /\ XmlTokens(s)
      twins == {i \in own : hp[i].enc # 0 /\ hp[i].stk /\ hp[i].st = <<>>}
      ls == If1(r.ok /\ failed, "un" \o kind \o ".refused")
            \cup If1(~r.ok /\ ~failed, "un" \o kind \o ".accepted")
            \cup If1(r.ok /\ ~failed /\ r.v # o, "un" \o kind \o ".sig")
      rt == UNION {trip(i) : i \in own}
  IN  [l |-> (IF r.ok THEN Priv(r.v, ls) ELSE ls)
             \cup (IF own # {} /\ trips THEN {"own." \o l : l \in ls} ELSE {})
             \cup UNION {Priv(t.sigs[hp[i].sig], rt) : i \in own}
             \cup If1(\E m \in sn : m[1] = key /\ m[2] # res, "seen." \o kind)
             \cup If1(~e.same, "input.changed"),
       h |-> [Slot0 EXCEPT !.sig = e.obs[e.s], !.org = kind,
                           \* after a failure the receiver may be anything
                           !.stk = ~failed,
                           !.twin = IF twins = {} \/ failed \/ ~trips THEN 0
                                    ELSE hp[CHOOSE i \in twins : TRUE].enc],
       k |-> <<key, res>>]

JudgeTable(t, hp, e) ==
  LET h == hp[e.s]
      o == SignalWith(t.sigs[h.sig], h.st)
      key == <<"table", e.prefix, e.indent>>
      out == t.bufs[e.out]
      known == h.stk /\ HasInstants(o.cmd) /\ TableKnown(EncodeParts(o))
  IN  \* an instant of another zone, or with a fraction, is printed as such
      IF e.odd THEN [l |-> {}, h |-> h, k |-> <<>>] ELSE
      [l |-> (IF ~known THEN {}
              ELSE Priv(o, If1(out # TableText(o, e.prefix, e.indent, FALSE)
                                      /\ (Zone = 0 \/ out # TableText(o, e.prefix, e.indent, TRUE)), "table.text")))
             \cup Pure(t, hp, e, key, e.out),
       h |-> Remember(h, key, e.out), k |-> <<>>]

\* beyond 63 bits of nanoseconds there is no duration
JudgeDur(t, hp, e) ==
  LET h == hp[e.s]
      o == t.sigs[h.sig]
      ns == DurationNs(o)
  IN  [l |-> If1(Len(ns) < 19 /\ t.bufs[e.out] # ns, "dur")
             \cup Pure(t, hp, e, <<"dur">>, e.out),
       h |-> Remember(h, <<"dur">>, e.out), k |-> <<>>]

JudgeDerived(t, hp, e) ==
  LET h == hp[e.s]
      o == t.sigs[h.sig]
      diff == DerivedDiff(DerivedRows(o), e.rows)
  IN  [l |-> {"derived." \o x : x \in diff} \cup Pure(t, hp, e, <<"derived">>, e.rows),
       h |-> Remember(h, <<"derived">>, e.rows), k |-> <<>>]

JudgeHeld(t, hp, e) ==
  [l |-> If1(~e.same, "held"), h |-> hp[e.s], k |-> <<>>]

----------------------------------------------------------------------------
(* Calls without a signal *)

JudgeTicks(t, hp, e) ==
  LET d == TextDigits(e.t)
      ns == TicksToNs(d)
  IN  [l |-> If1(e.ns # DigitsText(ns), "time.ns") \cup If1(e.back # DigitsText(d), "time.back"),
       h |-> hp[e.s], k |-> <<>>]

\* the constructors of the commands that carry a pts_time
JudgeMade(t, hp, e) ==
  LET ts == t.sigs[e.ts].cmd
      si == t.sigs[e.si].cmd
  IN  [l |-> If1(\/ ts # [TimeSignal0 EXCEPT !.time_specified = TRUE, !.pts_time = e.t]
                 \/ si # [SpliceInsert0 EXCEPT !.program_splice = TRUE, !.time_specified = TRUE, !.pts_time = e.t],
                 "made.sig"),
       h |-> hp[e.s], k |-> <<>>]

JudgeNs(t, hp, e) ==
  [l |-> If1(e.t # DigitsText(NsToTicks(TextDigits(e.ns))), "time.ticks"), h |-> hp[e.s], k |-> <<>>]

JudgeGps(t, hp, e) ==
  [l |-> If1(e.rfc # Rfc3339(e.sec), "time.utc")
         \cup If1(e.back # e.sec \/ e.frac # e.sec \/ e.zone # e.sec, "time.gps"),
   h |-> hp[e.s], k |-> <<>>]

JudgeBytes(t, hp, e) ==
  LET r == ParseHex(t.bufs[e.in])
  IN  [l |-> If1(t.bufs[e.out] # HexOf(t.bufs[e.b], HexL), "bytes.text")
             \cup If1(r.ok # (e.err = "none"), "bytes.err")
             \cup If1(r.ok /\ e.err = "none" /\ t.bufs[e.got] # r.v, "bytes.value")
             \cup If1(~e.same, "bytes.held"),
       h |-> hp[e.s], k |-> <<>>]

JudgeUpid(t, hp, e) ==
  LET b == t.bufs[e.in]
      u == UpidOf(e.type, b)
      w == UpidBytes(u)
      eq == UpidEq(u, e.u)
  IN  [l |-> If1(~eq, "upid.new")
             \cup If1(eq /\ ~u.dc /\ e.name # UpidName(u), "upid.name")
             \cup If1(eq /\ ~u.dc /\ w.k = "ok" /\ e.ascii # AsciiOf(w.v), "upid.ascii"),
       h |-> hp[e.s], k |-> <<>>]

JudgeNames(t, hp, e) ==
  LET c == e.code
  IN  [l |-> If1(e.seg # SegmentationTypeName(c), "names.segmentation_type_id")
             \cup If1(e.upid # UpidName([type |-> c, text |-> e.text]), "names.segmentation_upid_type")
             \cup If1(e.sap # SapName(c), "names.sap_type")
             \cup If1(e.encrypted # (c # 0), "names.encrypted")
             \cup If1(e.cmd # CmdKind(c), "names.command")
             \cup If1(e.desc # DescKind(CUEI, c), "names.descriptor")
             \cup If1(e.alien # "private_descriptor", "names.alien"),
       h |-> hp[e.s], k |-> <<>>]

----------------------------------------------------------------------------
(* The command line tools *)

JudgeCliDecode(t, hp, e) ==
  LET in == t.bufs[e.in]
      r == IF DecodeEntry(in) = "hex" THEN e.hex ELSE e.b64
      f == DecodeFormat(e.format)
      out == t.bufs[IF f = "json" THEN r.json ELSE IF f = "xml" THEN r.xml ELSE r.text]
  IN  [l |-> If1(t.bufs[e.out] # DecodeOut(out), "cli.decode.out")
             \cup If1(IF r.failed THEN ~EndsWith(t.bufs[e.errs], ErrorText(t.bufs[r.msg]))
                     ELSE SaysError(t.bufs[e.errs]), "cli.decode.err")
             \cup If1(e.code # 0, "cli.decode.status"),
       h |-> hp[e.s], k |-> <<>>]

JudgeCliEncode(t, hp, e) ==
  LET in == t.bufs[e.in]
      type == DocumentType(in)
      r == IF type = "xml" THEN e.xml ELSE e.json
      good == type # "none" /\ ~r.failed
      errs == t.bufs[e.errs]
  IN  [l |-> (IF good THEN If1(t.bufs[e.out] # EncodeOut(t.bufs[r.b64], t.bufs[r.hex]), "cli.encode.out")
                           \cup If1(SaysError(errs), "cli.encode.err")
              ELSE If1(t.bufs[e.out] # <<>>, "cli.encode.out")
                   \cup If1(IF type = "none" THEN ~SaysError(errs)
                            ELSE ~EndsWith(errs, ErrorText(t.bufs[r.msg])), "cli.encode.err"))
             \cup If1(e.code # 0, "cli.encode.status"),
       h |-> hp[e.s], k |-> <<>>]

JudgeCliWrong(t, hp, e) ==
  [l |-> If1(e.code = 0 \/ t.bufs[e.errs] = <<>> \/ e.sections, "cli.usage"), h |-> hp[e.s], k |-> <<>>]

----------------------------------------------------------------------------
Judge(t, hp, sn, e) ==
  IF e.panic # "" THEN
    [l |-> {"panic"}, h |-> [Slot0 EXCEPT !.sig = e.obs[e.s], !.stk = FALSE], k |-> <<>>]
  ELSE CASE e.op = "new" -> JudgeNew(t, hp, e)
         [] e.op = "edit" -> JudgeEdit(t, hp, e)
         [] e.op = "copy" -> JudgeCopy(t, hp, e)
         [] e.op = "bytes" -> JudgeBytes(t, hp, e)
         [] e.op = "decode" -> JudgeDecode(t, hp, e, sn)
         [] e.op = "encode" -> JudgeEncode(t, hp, e)
         [] e.op \in {"b64", "hex"} -> JudgeText(t, hp, e)
         [] e.op = "json" -> JudgeJson(t, hp, e)
         [] e.op = "xml" -> JudgeXml(t, hp, e)
         [] e.op = "unjson" -> JudgeUnmarshal(t, hp, e, sn, "json")
         [] e.op = "unxml" -> JudgeUnmarshal(t, hp, e, sn, "xml")
         [] e.op = "table" -> JudgeTable(t, hp, e)
         [] e.op = "dur" -> JudgeDur(t, hp, e)
         [] e.op = "derived" -> JudgeDerived(t, hp, e)
         [] e.op = "look" -> [l |-> {}, h |-> hp[e.s], k |-> <<>>]
         [] e.op = "held" -> JudgeHeld(t, hp, e)
         [] e.op = "ticks" -> JudgeTicks(t, hp, e)
         [] e.op = "made" -> JudgeMade(t, hp, e)
         [] e.op = "ns" -> JudgeNs(t, hp, e)
         [] e.op = "gps" -> JudgeGps(t, hp, e)
         [] e.op = "upid" -> JudgeUpid(t, hp, e)
         [] e.op = "names" -> JudgeNames(t, hp, e)
         [] e.op = "clidecode" -> JudgeCliDecode(t, hp, e)
         [] e.op = "cliencode" -> JudgeCliEncode(t, hp, e)
         [] e.op = "cliwrong" -> JudgeCliWrong(t, hp, e)

\* slots that hold another signal than before, other than the one a call is
\* supposed to change
FrameLabels(hp, e) ==
  LET moved == {i \in 1..Len(hp) : e.obs[i] # hp[i].sig}
  IN  If1(moved \ {e.s} # {}, "frame.other")
      \cup If1(e.op \notin Changers /\ e.s \in moved, IF e.op = "look" THEN "frame.look" ELSE "pure.changed")

----------------------------------------------------------------------------
VARIABLES chain, pos, step, heap, seen

vars == <<chain, pos, step, heap, seen>>

Init == /\ chain \in 1..8
        /\ pos = 1 /\ step = 1 /\ heap = <<>> /\ seen = {}

\* adopt what was observed
Adopt(hp, e, h) ==
  [i \in 1..Len(hp) |->
     IF i = e.s THEN [h EXCEPT !.sig = e.obs[i]]
     ELSE IF e.obs[i] # hp[i].sig THEN [Slot0 EXCEPT !.sig = e.obs[i], !.stk = FALSE]
     ELSE hp[i]]

Heap0(n) == [i \in 1..n |-> Slot0]

Next ==
  /\ pos <= Len(Tr[chain])
  /\ LET t == Tr[chain][pos]
         e == t.evs[step]
         hp == IF step = 1 THEN Heap0(t.n) ELSE heap
         last == step >= Len(t.evs)
     IN  \E r \in {Judge(t, hp, seen, e)} :
           \E ls \in {r.l \cup FrameLabels(hp, e)} :
             /\ IF ls = {} THEN TRUE ELSE PrintT(<<"BAD", chain, pos, step, ls>>)
             /\ chain' = chain
             /\ pos' = IF last THEN pos + 1 ELSE pos
             /\ step' = IF last THEN 1 ELSE step + 1
             /\ heap' = IF last THEN <<>> ELSE Adopt(hp, e, r.h)
             /\ seen' = IF last \/ r.k = <<>> THEN (IF last THEN {} ELSE seen) ELSE seen \cup {r.k}

Spec == Init /\ [][Next]_vars

\* said once per chain, at its end
Report == pos > Len(Tr[chain]) => PrintT(<<"END", chain, pos - 1>>)
=============================================================================
