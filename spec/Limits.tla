------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* Values at and beyond the limits of the syntax.  For some signals of the *)
(* generator: every field at its maximum and just above it, every list and *)
(* text at the length its count can say and just above it, and sections at *)
(* the maximum length and just above it.  The invariants say that what is  *)
(* accepted means what was given, and that nothing is cut off.             *)
(***************************************************************************)
EXTENDS Gen

Times(n, e) == [i \in 1..n |-> e]
LongText(n) == [i \in 1..n |-> 97 + (i % 26)]
TextUpid(n) == UpidOf(9, LongText(n))

RECURSIVE Var(_, _), VarItem(_, _)
VarItem(v, it) ==
  CASE it.k = "u" -> [i \in 1..4 |-> [v EXCEPT ![it.f] = <<0, 1, Pow2(it.n) - 1, Pow2(it.n)>>[i]]]
    [] it.k = "w" -> [i \in 1..4 |-> [v EXCEPT ![it.f] = <<Zero, <<0, 1>>, <<Pow2(it.n - 24) - 1, W24 - 1>>,
                                                           IF it.n = 32 THEN <<128, 0>> ELSE <<Pow2(it.n - 24), 0>> >>[i]]]
    [] it.k \in {"b", "nb"} -> <<[v EXCEPT ![it.f] = ~@]>>
    [] it.k = "if" -> Var(v, it.t) \o Var(v, it.e)
    [] it.k = "some" -> Var(v, it.t)
    [] it.k = "loop" ->
         LET first == IF v[it.f] = <<>> THEN it.d ELSE v[it.f][1]
             vs == Var(first, it.t)
             ns == <<0, 1, 2, 7, 8, 15, 16, 31, 32, 38, 39, 63, 64, 255, 256>>
         IN  [i \in 1..Len(ns) |-> [v EXCEPT ![it.f] = Times(ns[i], first)]]
             \o [i \in 1..Len(vs) |-> [v EXCEPT ![it.f] = <<vs[i]>> \o SubSeq(@, 2, Len(@))]]
    [] it.k = "str" -> [i \in 1..5 |-> [v EXCEPT ![it.f] = LongText(<<0, 1, 7, 8, 9>>[i])]]
    [] it.k = "fix" -> [i \in 1..4 |-> [v EXCEPT ![it.f] = LongText(<<0, it.n - 1, it.n, it.n + 1>>[i])]]
    [] it.k = "rest" -> [i \in 1..6 |-> [v EXCEPT ![it.f] = LongText(<<0, 1, 250, 251, 252, 300>>[i])]]
    [] it.k = "upids" ->
         <<[v EXCEPT ![it.f] = <<>>],
           [v EXCEPT ![it.f] = <<TextUpid(255)>>], [v EXCEPT ![it.f] = <<TextUpid(256)>>],
           [v EXCEPT ![it.f] = <<TextUpid(100), TextUpid(96)>>],
           [v EXCEPT ![it.f] = <<TextUpid(100), TextUpid(150)>>], [v EXCEPT ![it.f] = <<TextUpid(100), TextUpid(151)>>],
           [v EXCEPT ![it.f] = <<TextUpid(100), TextUpid(152)>>],
           [v EXCEPT ![it.f] = Times(20, TextUpid(8))], [v EXCEPT ![it.f] = Times(26, TextUpid(8))],
           [v EXCEPT ![it.f] = <<UpidOf(12, <<1, 2, 3, 4>>)>>], [v EXCEPT ![it.f] = <<[TextUpid(3) EXCEPT !.type = 256]>>]>>
         \* the descriptor is as long as it can be, or a byte longer
         \o [i \in 1..14 |-> [v EXCEPT ![it.f] = <<TextUpid(220 + (2 * i) + (i \div 8))>>]]
    [] it.k = "sub" ->
         LET w == [v EXCEPT !.type_id = 52]
         IN  <<[w EXCEPT !.has_sub_num = TRUE, !.sub_segment_num = 7, !.has_sub_exp = FALSE, !.sub_segments_expected = 0],
               [w EXCEPT !.has_sub_exp = TRUE, !.sub_segments_expected = 9, !.has_sub_num = FALSE, !.sub_segment_num = 0],
               [w EXCEPT !.has_sub_num = TRUE, !.has_sub_exp = TRUE, !.sub_segment_num = 255, !.sub_segments_expected = 256],
               [w EXCEPT !.has_sub_num = TRUE, !.has_sub_exp = TRUE, !.sub_segment_num = 255, !.sub_segments_expected = 255]>>
    [] OTHER -> <<>>
Var(v, items) == FlattenSeq([i \in 1..Len(items) |-> VarItem(v, items[i])])

\* the header
HeaderVars(s) ==
  <<[s EXCEPT !.sap = 0], [s EXCEPT !.sap = 3], [s EXCEPT !.sap = 4], [s EXCEPT !.proto = 255], [s EXCEPT !.proto = 256],
    [s EXCEPT !.alg = 1], [s EXCEPT !.alg = 63], [s EXCEPT !.alg = 64], [s EXCEPT !.pts = <<511, W24 - 1>>],
    [s EXCEPT !.pts = <<512, 0>>], [s EXCEPT !.cw = 255], [s EXCEPT !.cw = 256], [s EXCEPT !.tier = 4095],
    [s EXCEPT !.tier = 4096], [s EXCEPT !.cmd = NoCommand]>>
\* the length of the section
PrivCmd(n) == [PrivateCommand0 EXCEPT !.identifier = <<1, 2>>, !.bytes = LongText(n)]
PrivDesc(n) == [DescSyntax["private_descriptor"].init EXCEPT !.tag = 3, !.identifier = <<1, 2>>, !.bytes = LongText(n)]
LengthVars(s) ==
  [i \in 1..5 |-> [s EXCEPT !.cmd = PrivCmd(<<4073, 4074, 4075, 4091, 5000>>[i]), !.descs = <<>>]]
    \o [i \in 1..6 |-> [s EXCEPT !.cmd = SpliceNull0, !.descs = Times(15, PrivDesc(251)) \o <<PrivDesc(200 + i + 22)>>]]
    \o [i \in 1..3 |-> [s EXCEPT !.cmd = PrivCmd(<<230, 231, 232>>[i]), !.alg = IF i = 1 THEN 1 ELSE 0, !.descs = Times(15, PrivDesc(251))]]

----------------------------------------------------------------------------
VARIABLES cur

Bases == atoi(IOEnv.BASES)
Kind(n) == IF n <= 6 THEN Kinds[n] ELSE DKinds[n - 6]
Init == cur \in {[k |-> "base", i |-> i, n |-> n] : i \in 1..Bases, n \in 0..12}

BasePattern(i) == [pat |-> IF i % 3 = 0 THEN "zero" ELSE "seq", ones |-> TRUE]
\* a shape of kind k that is not just a cancellation
ShapeLike(p, k, n) ==
  LET v == IF k \in DOMAIN CmdSyntax THEN Command(p, k, n % CommandSize(k)).v ELSE Descriptor(p, k, n % DescriptorSize(k)).v
  IN  IF "cancel" \in DOMAIN v THEN [v EXCEPT !.cancel = FALSE]
      ELSE IF k = "splice_schedule" THEN [v EXCEPT !.events = <<[ScheduleEvent0 EXCEPT !.event_id = <<1, n>>, !.program_splice = (n % 2 = 0),
                                                                   !.has_duration = (n % 4 < 2), !.components = <<ScheduleComponent0>>]>>]
      ELSE v

Variants(i, n) ==
  LET p == BasePattern(i)
      f == Frame(p, ((i + Seed) * 1687) + (Seed * 7919)).v
      x == ((i * 7901) + (Seed * 104729)) % 110592
      v == ShapeLike(p, Kind(n), x)
  IN  IF n = 0 THEN HeaderVars(f) \o LengthVars(f)
      ELSE IF n <= 6 THEN LET vs == Var(v, CmdSyntax[Kind(n)].syn) IN
                          [k \in 1..Len(vs) |-> [f EXCEPT !.cmd = vs[k], !.descs = SubSeq(@, 1, IF Len(@) > 0 THEN 1 ELSE 0)]]
      ELSE LET vs == Var(v, DescSyntax[Kind(n)].syn)
               priv == Kind(n) = "private_descriptor"
               ws == IF ~priv THEN vs
                     ELSE vs \o <<[v EXCEPT !.tag = 255], [v EXCEPT !.tag = 256], [v EXCEPT !.identifier = Zero], [v EXCEPT !.tag = 0]>>
           IN  [k \in 1..Len(ws) |-> [f EXCEPT !.cmd = SpliceNull0, !.descs = <<ws[k]>> \o SubSeq(@, 1, IF Len(@) > 0 THEN 1 ELSE 0)]]

Piece == 16
Choose1 ==
  /\ cur.k = "base"
  /\ \E vs \in {Variants(cur.i, cur.n)} :
     \E i \in 1..((Len(vs) + Piece - 1) \div Piece) :
       cur' = [k |-> "piece", i |-> cur.i, n |-> cur.n, m |-> i,
               vs |-> SubSeq(vs, ((i - 1) * Piece) + 1, IF i * Piece > Len(vs) THEN Len(vs) ELSE i * Piece)]
\* texts are written, too
SessionOf(v, i) == [n |-> 2, ops |-> <<Put(1, v), Op("encode", 1, 0), Op("decode", 2, 1), Op("encode", 2, 0)>>
                                       \o (IF i % 5 = 0 THEN <<Op("b64", 1, 0), Op("hex", 1, 0)>> ELSE <<>>)]
File(c) == IOEnv.OUT_DIR \o "/l" \o ToString(c.i) \o "-" \o ToString(c.n) \o "-" \o ToString(c.m) \o ".ndjson"
Choose2 ==
  /\ cur.k = "piece"
  /\ ndJsonSerialize(File(cur), [i \in 1..Len(cur.vs) |-> SessionOf(cur.vs[i], i)])
  /\ \E i \in 1..Len(cur.vs) :
       \E e \in {EncodeSignal(cur.vs[i] @@ [stuffing |-> <<>>])} :
       cur' = [k |-> "value", v |-> cur.vs[i], e |-> e,
               d |-> IF e.k # "ok" THEN <<>> ELSE <<DecodeSection(e.b)>>]
Next == Choose1 \/ Choose2

\* 0.  With 1 the length would have to be shorter than it can be
Slack == atoi(IOEnv.SLACK)
Accepted == cur.k = "value" /\ cur.e.k = "ok"
\* what is accepted is a section
Framing == Accepted => /\ cur.d[1].errs = {"none"}
                       /\ GetN(cur.e.b, 12, 12) = Len(cur.e.b) - 3
                       /\ Len(cur.e.b) <= 4098 - Slack
                       /\ EncodeSignal(cur.d[1].sig @@ [stuffing |-> <<>>]) = cur.e
\* every count and every list it holds agrees with what was given
Counts == Accepted =>
  LET a == cur.v
      c == cur.d[1].sig
  IN  /\ Len(a.descs) = Len(c.descs)
      /\ a.cmd.kind = c.cmd.kind
      /\ \A i \in 1..Len(a.descs) :
           /\ a.descs[i].kind = c.descs[i].kind
           /\ a.descs[i].kind = "segmentation_descriptor" /\ ~a.descs[i].cancel => Len(a.descs[i].upids) = Len(c.descs[i].upids)
           /\ a.descs[i].kind = "audio_descriptor" => a.descs[i] = c.descs[i]
           /\ a.descs[i].kind = "dtmf_descriptor" => a.descs[i] = c.descs[i]
           /\ a.descs[i].kind = "private_descriptor" => a.descs[i] = c.descs[i]
      /\ a.cmd.kind = "splice_schedule" => Len(a.cmd.events) = Len(c.cmd.events)
\* what does not fit is refused or left open
Refused == cur.k = "value" /\ cur.e.k # "refuse" =>
             /\ \A i \in 1..Len(cur.v.descs) : cur.v.descs[i].kind = "dtmf_descriptor" => Len(cur.v.descs[i].chars) <= 7
             /\ \A i \in 1..Len(cur.v.descs) : cur.v.descs[i].kind = "audio_descriptor" => Len(cur.v.descs[i].channels) <= 15
             /\ \A i \in 1..Len(cur.v.descs) : cur.v.descs[i].kind = "private_descriptor" => Len(cur.v.descs[i].bytes) <= 251
=============================================================================
