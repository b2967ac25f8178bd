--------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* JSON and XML documents of a signal (SCTE 35 section 11 and the XML      *)
(* schema).  Names, types and defaults are data; writing and reading a     *)
(* document are interpreters of that data.                                 *)
(*                                                                         *)
(* A JSON node is <<tag, text, bytes, kids>>:                              *)
(*   <<"n", "17", ..>> number      <<"b", "true", ..>> boolean             *)
(*   <<"s", "", bytes, ..>> string <<"null", ..>>                          *)
(*   <<"a", "", <<>>, nodes>>      <<"o", "", <<>>, <<key, node>> pairs>>  *)
(* In an expected document <<"e", ..>> stands for an empty array or null   *)
(* and <<"oe", ..>> for an empty object or nothing.                        *)
(*                                                                         *)
(* An XML element is <<name, text, attributes, elements>>, with            *)
(* <<name, bytes>> for an attribute; names are those of the SCTE 35        *)
(* namespace (those of any other have the namespace in front).             *)
(*                                                                         *)
(* The rows of a table:                                                    *)
(*   A: an attribute / a scalar member                                     *)
(*      j, x  its name in JSON and XML       ty  its type                  *)
(*      f     the field of the signal        p   its presence flag or ""   *)
(*      jz, xz  left out if it has its default value                       *)
(*   C: as A, but the character data of the element in XML                 *)
(*   O: a nested object; p is its presence flag ("" if it is always there) *)
(*      jn    written as null in JSON if it is absent                      *)
(*   L: a list; jz as above, otherwise written as null or an empty array   *)
(***************************************************************************)
EXTENDS Section, Names

A(j, x, ty, f, p, jz, xz) ==
  [k |-> "A", j |-> j, x |-> x, ty |-> ty, f |-> f, p |-> p, jz |-> jz, xz |-> xz]
C(j, ty, f) == [k |-> "C", j |-> j, x |-> "", ty |-> ty, f |-> f, p |-> "", jz |-> FALSE, xz |-> FALSE]
O(j, x, p, jn, rows) == [k |-> "O", j |-> j, x |-> x, p |-> p, jn |-> jn, soft |-> FALSE, rows |-> rows]
\* an object whose absence and emptiness mean the same
OE(j, x, p, rows) == [k |-> "O", j |-> j, x |-> x, p |-> p, jn |-> FALSE, soft |-> TRUE, rows |-> rows]
L(j, x, f, jz, rows, d) == [k |-> "L", j |-> j, x |-> x, f |-> f, jz |-> jz, rows |-> rows, d |-> d]

\* jz of scalar rows
Always == FALSE
IfSet == TRUE

PtsTimeRow == <<A("ptsTime", "ptsTime", "w64", "pts_time", "time_specified", Always, Always)>>
BreakRow(jn) ==
  O("breakDuration", "BreakDuration", "has_duration", jn,
    <<A("autoReturn", "autoReturn", "b", "auto_return", "", Always, Always),
      A("duration", "duration", "w64", "duration", "", Always, Always)>>)
AvailRow ==
  <<A("uniqueProgramId", "uniqueProgramId", "u32", "unique_program_id", "", IfSet, Always),
    A("availNum", "availNum", "u32", "avail_num", "", IfSet, Always),
    A("availsExpected", "availsExpected", "u32", "avails_expected", "", IfSet, Always)>>

InsertDoc ==
  <<O("program", "Program", "program_splice", FALSE,
      <<O("spliceTime", "SpliceTime", "", FALSE, PtsTimeRow)>>),
    L("components", "Component", "components", TRUE,
      <<A("componentTag", "componentTag", "u32", "tag", "", IfSet, Always),
        OE("spliceTime", "SpliceTime", "time_specified", PtsTimeRow)>>,
      InsertComponent0),
    BreakRow(FALSE),
    A("spliceEventId", "spliceEventId", "w32", "event_id", "", IfSet, Always),
    A("spliceEventCancelIndicator", "spliceEventCancelIndicator", "b", "cancel", "", Always, Always),
    A("spliceImmediateFlag", "spliceImmediateFlag", "b", "immediate", "", Always, Always),
    A("outOfNetworkIndicator", "outOfNetworkIndicator", "b", "out_of_network", "", Always, Always)>>
  \o AvailRow

UtcRow == A("utcSpliceTime", "utcSpliceTime", "time", "utc_splice_time", "", Always, Always)

EventDoc ==
  <<O("program", "Program", "program_splice", TRUE, <<UtcRow>>),
    L("components", "Component", "components", FALSE,
      <<A("componentTag", "componentTag", "u32", "tag", "", Always, Always), UtcRow>>,
      [ScheduleComponent0 EXCEPT !.utc_splice_time = NoInstant]),
    BreakRow(TRUE),
    A("spliceEventId", "spliceEventId", "w32", "event_id", "", Always, Always),
    A("spliceEventCancelIndicator", "spliceEventCancelIndicator", "b", "cancel", "", Always, Always),
    A("eventIdComplianceFlag", "eventIdComplianceFlag", "b", "compliance", "", IfSet, IfSet),
    A("outOfNetworkIndicator", "outOfNetworkIndicator", "b", "out_of_network", "", IfSet, Always)>>
  \o AvailRow

CommandDoc ==
  [splice_null |-> [x |-> "SpliceNull", rows |-> <<>>],
   splice_schedule |->
     [x |-> "SpliceSchedule", rows |-> <<L("events", "Event", "events", FALSE, EventDoc, ScheduleEvent0)>>],
   splice_insert |-> [x |-> "SpliceInsert", rows |-> InsertDoc],
   time_signal |->
     [x |-> "TimeSignal", rows |-> <<O("spliceTime", "SpliceTime", "", FALSE, PtsTimeRow)>>],
   bandwidth_reservation |-> [x |-> "BandwidthReservation", rows |-> <<>>],
   private_command |->
     [x |-> "PrivateCommand",
      rows |-> <<A("identifier", "identifier", "w32", "identifier", "", Always, Always),
                 C("privateBytes", "hex", "bytes")>>]]

CommandKinds == <<"splice_null", "splice_schedule", "splice_insert", "time_signal",
                  "bandwidth_reservation", "private_command">>

Upid0 == [type |-> 0, fmt |-> "", fi |-> <<>>, text |-> <<>>, dc |-> FALSE]
UpidDoc ==
  <<A("segmentationUpidType", "segmentationUpidType", "u32", "type", "", Always, Always),
    A("segmentationUpidFormat", "segmentationUpidFormat", "fmt", "fmt", "", IfSet, IfSet),
    A("formatIdentifier", "formatIdentifier", "opt32", "fi", "", IfSet, IfSet),
    C("value", "token", "text")>>

SegmentationDoc ==
  <<O("deliveryRestrictions", "DeliveryRestrictions", "restricted", FALSE,
      <<A("archiveAllowedFlag", "archiveAllowedFlag", "b", "archive_allowed", "", Always, Always),
        A("webDeliveryAllowedFlag", "webDeliveryAllowedFlag", "b", "web_delivery_allowed", "", Always, Always),
        A("noRegionalBlackoutFlag", "noRegionalBlackoutFlag", "b", "no_regional_blackout", "", Always, Always),
        A("deviceRestrictions", "deviceRestrictions", "u32", "device_restrictions", "", Always, Always)>>),
    L("segmentationUpids", "SegmentationUpid", "upids", TRUE, UpidDoc, Upid0),
    L("components", "Component", "components", TRUE,
      <<A("componentTag", "componentTag", "u32", "tag", "", Always, Always),
        A("ptsOffset", "ptsOffset", "w64", "pts_offset", "", Always, Always)>>,
      SegComponent0),
    A("segmentationEventId", "segmentationEventId", "w32", "event_id", "", IfSet, IfSet),
    A("segmentationEventCancelIndicator", "segmentationEventCancelIndicator", "b", "cancel", "", IfSet, IfSet),
    A("segmentationEventIdComplianceIndicator", "segmentationEventIdComplianceIndicator", "b", "compliance", "", IfSet, IfSet),
    A("segmentationDuration", "segmentationDuration", "w64", "duration", "has_duration", Always, Always),
    A("segmentationTypeId", "segmentationTypeId", "u32", "type_id", "", IfSet, IfSet),
    A("segmentNum", "segmentNum", "u32", "segment_num", "", IfSet, IfSet),
    A("segmentsExpected", "segmentsExpected", "u32", "segments_expected", "", IfSet, IfSet),
    A("subSegmentNum", "subSegmentNum", "u32", "sub_segment_num", "has_sub_num", Always, Always),
    A("subSegmentsExpected", "subSegmentsExpected", "u32", "sub_segments_expected", "has_sub_exp", Always, Always)>>

DescriptorDoc ==
  [avail_descriptor |->
     [x |-> "AvailDescriptor",
      rows |-> <<A("providerAvailId", "providerAvailId", "w32", "provider_avail_id", "", Always, Always)>>],
   dtmf_descriptor |->
     [x |-> "DTMFDescriptor",
      rows |-> <<A("preroll", "preroll", "u32", "preroll", "", Always, Always),
                 A("chars", "chars", "text", "chars", "", Always, Always)>>],
   segmentation_descriptor |-> [x |-> "SegmentationDescriptor", rows |-> SegmentationDoc],
   time_descriptor |->
     [x |-> "TimeDescriptor",
      rows |-> <<A("taiSeconds", "taiSeconds", "w64", "tai_seconds", "", Always, Always),
                 A("taiNs", "taiNs", "w32", "tai_ns", "", Always, Always),
                 A("utcOffset", "utcOffset", "u32", "utc_offset", "", Always, Always)>>],
   audio_descriptor |->
     [x |-> "AudioDescriptor",
      rows |-> <<L("audioChannels", "AudioChannel", "channels", FALSE,
                   <<A("componentTag", "componentTag", "u32", "tag", "", Always, Always),
                     A("isoCode", "ISOCode", "text", "iso_code", "", Always, Always),
                     A("bitStreamMode", "BitStreamMode", "u32", "bit_stream_mode", "", Always, Always),
                     A("numChannels", "NumChannels", "u32", "num_channels", "", Always, Always),
                     A("fullSrvcAudio", "FullSrvcAudio", "b", "full_srvc_audio", "", Always, Always)>>,
                   AudioChannel0)>>],
   private_descriptor |->
     [x |-> "PrivateDescriptor",
      rows |-> <<A("tag", "tag", "u32", "tag", "", Always, Always),
                 A("identifier", "identifier", "w32", "identifier", "", Always, Always),
                 C("privateBytes", "hex", "bytes")>>]]

DescriptorKinds == <<"avail_descriptor", "dtmf_descriptor", "segmentation_descriptor",
                     "time_descriptor", "audio_descriptor", "private_descriptor">>

EncryptedPacketDoc ==
  <<A("encryptionAlgorithm", "encryptionAlgorithm", "u32", "alg", "", Always, Always),
    A("cwIndex", "cwIndex", "u32", "cw", "", Always, Always)>>

\* the scalars of the section itself (preRollMilliSeconds is XML only)
SectionDoc ==
  <<A("sapType", "sapType", "u32", "sap", "", Always, Always),
    A("", "preRollMilliSeconds", "w32", "preroll", "", IfSet, IfSet),
    A("ptsAdjustment", "ptsAdjustment", "w64", "pts", "", IfSet, IfSet),
    A("protocolVersion", "protocolVersion", "u32", "proto", "", IfSet, IfSet),
    A("tier", "tier", "u32", "tier", "", Always, Always)>>

----------------------------------------------------------------------------
(* Writing JSON *)

JNum(s) == <<"n", s, <<>>, <<>>>>
JStr(b) == <<"s", "", b, <<>>>>
JBool(x) == <<"b", IF x THEN "true" ELSE "false", <<>>, <<>>>>
JNull == <<"null", "", <<>>, <<>>>>
JArr(ns) == <<"a", "", <<>>, ns>>
JObj(kvs) == <<"o", "", <<>>, kvs>>
JEmpty == <<"e", "", <<>>, <<>>>>
JSoft == <<"oe", "", <<>>, <<>>>>

IsZero(v, ty) ==
  CASE ty = "u32" -> v = 0
    [] ty \in {"w32", "w64"} -> v = Zero
    [] ty = "b" -> ~v
    [] ty = "fmt" -> v = ""
    [] OTHER -> v = <<>>

\* a number that an observer cannot see (see driver/val.go)
Unseen(v, ty) == IF ty = "u32" THEN v < 0 ELSE ty \in {"w32", "w64"} /\ v[1] >= 1073741824
JAny == <<"?", "", <<>>, <<>>>>

JScalar(v, ty) ==
  CASE Unseen(v, ty) -> JAny
    [] ty = "u32" -> JNum(ToString(v))
    [] ty \in {"w32", "w64"} -> JNum(DecStrW(v))
    [] ty = "opt32" -> JNum(DecStrW(v[1]))
    [] ty = "b" -> JBool(v)
    [] ty = "fmt" -> JStr(StrBytes(v))
    [] ty = "hex" -> JStr(HexOf(v, HexL))
    [] ty = "time" -> JStr(Rfc3339(v))
    [] OTHER -> JStr(v)

RECURSIVE JRows(_, _)
JRow(v, row) ==                        \* the members the row makes
  CASE row.k \in {"A", "C"} ->
         IF row.j = "" \/ (row.p # "" /\ ~v[row.p]) \/ (row.jz /\ IsZero(v[row.f], row.ty)) THEN <<>>
         ELSE <<<<row.j, JScalar(v[row.f], row.ty)>>>>
    [] row.k = "O" ->
         IF row.p # "" /\ ~v[row.p]
         THEN IF row.jn THEN <<<<row.j, JNull>>>>
              ELSE IF row.soft THEN <<<<row.j, JSoft>>>> ELSE <<>>
         ELSE <<<<row.j, JObj(JRows(v, row.rows))>>>>
    [] row.k = "L" ->
         IF v[row.f] = <<>>
         THEN IF row.jz THEN <<>> ELSE <<<<row.j, JEmpty>>>>
         ELSE <<<<row.j, JArr(FoldLeft(LAMBDA a, x : Append(a, JObj(JRows(x, row.rows))), <<>>, v[row.f]))>>>>

JRows(v, rows) == FoldLeft(LAMBDA a, row : a \o JRow(v, row), <<>>, rows)

TypeMember(code) == <<<<"type", JNum(ToString(code))>>>>

JsonOf(s) ==
  LET cmd == IF s.cmd.kind = "none" THEN JNull
             ELSE JObj(TypeMember(CmdSyntax[s.cmd.kind].code) \o JRows(s.cmd, CommandDoc[s.cmd.kind].rows))
      desc(d) == JObj(TypeMember(IF d.kind = "private_descriptor" THEN d.tag ELSE DescSyntax[d.kind].code)
                        \o JRows(d, DescriptorDoc[d.kind].rows))
  IN  JObj(<<<<"encryptedPacket", JObj(JRows(s, EncryptedPacketDoc))>>, <<"spliceCommand", cmd>>>>
             \o JRows(s, SectionDoc)
             \o (IF s.descs = <<>> THEN <<>>
                 ELSE <<<<"spliceDescriptors", JArr(FoldLeft(LAMBDA a, d : Append(a, desc(d)), <<>>, s.descs))>>>>))

\* does a document node match the expected node
\* an instant may be written as any zone's clocks show it, and with a fraction
\* (as a document read before has it)
SameText(want, got) ==
  \/ want = got
  \/ /\ Len(want) = 20 /\ Len(got) \in 20..35 /\ want[11] = 84 /\ want[20] = 90
     /\ LET a == ParseRfc3339(want)
            b == ParseRfc3339(got)
        IN  a.ok /\ b.ok /\ a.v = b.v

RECURSIVE JMatch(_, _)
JMatch(want, got) ==
  IF want[1] = "?" THEN TRUE
  ELSE IF want[1] = "e" THEN got[1] = "null" \/ (got[1] = "a" /\ got[4] = <<>>)
  ELSE IF want[1] = "oe" THEN got[1] = "o" /\ got[4] = <<>>
  ELSE IF want[1] # got[1] \/ want[2] # got[2] \/ ~SameText(want[3], got[3]) THEN FALSE
  ELSE IF want[1] = "a" THEN
    /\ Len(want[4]) = Len(got[4])
    /\ \A n \in 1..Len(want[4]) : JMatch(want[4][n], got[4][n])
  ELSE IF want[1] = "o" THEN
    \* every member of one is a member of the other
    /\ \A n \in 1..Len(want[4]) :
         \/ \E m \in 1..Len(got[4]) : got[4][m][1] = want[4][n][1] /\ JMatch(want[4][n][2], got[4][m][2])
         \/ want[4][n][2][1] = "oe" /\ (\A m \in 1..Len(got[4]) : got[4][m][1] # want[4][n][1])
    /\ \A m \in 1..Len(got[4]) :
         /\ \E n \in 1..Len(want[4]) : got[4][m][1] = want[4][n][1]
         /\ \A m2 \in 1..(m - 1) : got[4][m2][1] # got[4][m][1]
  ELSE TRUE

\* text JSON can carry
JsonDescOk(d) ==
  CASE d.kind = "dtmf_descriptor" -> ValidUtf8(d.chars)
    [] d.kind = "audio_descriptor" -> \A n \in 1..Len(d.channels) : ValidUtf8(d.channels[n].iso_code)
    [] d.kind = "segmentation_descriptor" -> \A n \in 1..Len(d.upids) : ValidUtf8(d.upids[n].text)
    [] d.kind = "private_descriptor" -> d.tag >= 0     \* one that can be observed
    [] OTHER -> TRUE
\* no descriptor claims a tag that belongs to another type
DescDispatchOk(d) == d.kind # "private_descriptor" \/ DescKind(d.identifier, d.tag) = "private_descriptor"
HasInstants(c) ==
  c.kind # "splice_schedule"
    \/ \A n \in 1..Len(c.events) :
         /\ c.events[n].utc_splice_time # NoInstant
         /\ \A m \in 1..Len(c.events[n].components) : c.events[n].components[m].utc_splice_time # NoInstant
JsonOk(s) == HasInstants(s.cmd) /\ \A n \in 1..Len(s.descs) : JsonDescOk(s.descs[n])

----------------------------------------------------------------------------
(* Writing XML *)

XText(v, ty) ==
  CASE Unseen(v, ty) -> <<-1>>
    [] ty = "u32" -> DecN(v)
    [] ty \in {"w32", "w64"} -> DecW(v)
    [] ty = "opt32" -> DecW(v[1])
    [] ty = "b" -> BoolBytes(v)
    [] ty = "fmt" -> StrBytes(v)
    [] ty = "hex" -> HexOf(v, HexL)
    [] ty = "time" -> Rfc3339(v)
    [] OTHER -> v

XAttrs(v, rows) ==
  FoldLeft(LAMBDA a, row :
      IF row.k # "A" THEN a
      ELSE IF (row.p # "" /\ ~v[row.p]) \/ (row.xz /\ IsZero(v[row.f], row.ty)) THEN a
      ELSE Append(a, <<row.x, XText(v[row.f], row.ty)>>),
    <<>>, rows)

XChars(v, rows) ==
  FoldLeft(LAMBDA a, row : IF row.k = "C" THEN XText(v[row.f], row.ty) ELSE a, <<>>, rows)

RECURSIVE XElem(_, _, _)
XKids(v, rows) ==
  FoldLeft(LAMBDA a, row :
      CASE row.k = "O" ->
             IF row.p # "" /\ ~v[row.p]
             THEN IF row.soft THEN Append(a, <<"?" \o row.x, <<>>, <<>>, <<>>>>) ELSE a
             ELSE Append(a, XElem(row.x, v, row.rows))
        [] row.k = "L" -> FoldLeft(LAMBDA a2, x : Append(a2, XElem(row.x, x, row.rows)), a, v[row.f])
        [] OTHER -> a,
    <<>>, rows)
XElem(name, v, rows) == <<name, XChars(v, rows), XAttrs(v, rows), XKids(v, rows)>>

XmlOf(s) ==
  <<"SpliceInfoSection", <<>>, XAttrs(s, SectionDoc),
    <<XElem("EncryptedPacket", s, EncryptedPacketDoc)>>
      \o (IF s.cmd.kind = "none" THEN <<>>
          ELSE <<XElem(CommandDoc[s.cmd.kind].x, s.cmd, CommandDoc[s.cmd.kind].rows)>>)
      \o FoldLeft(LAMBDA a, d : Append(a, XElem(DescriptorDoc[d.kind].x, d, DescriptorDoc[d.kind].rows)),
                  <<>>, s.descs)>>

AttrsEq(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A n \in 1..Len(a) : \E m \in 1..Len(b) : a[n][1] = b[m][1] /\ (a[n][2] = <<-1>> \/ SameText(a[n][2], b[m][2]))

\* elements whose name starts with "?" may be missing (but must be empty)
RECURSIVE XMatch(_, _), XMatchKids(_, _)
XMatchKids(want, got) ==
  IF want = <<>> THEN got = <<>>
  ELSE IF SubSeq(want[1][1], 1, 1) = "?" THEN
    IF got # <<>> /\ want[1][1] = "?" \o got[1][1] /\ got[1][3] = <<>> /\ got[1][4] = <<>>
    THEN XMatchKids(Tail(want), Tail(got))
    ELSE XMatchKids(Tail(want), got)
  ELSE got # <<>> /\ XMatch(want[1], got[1]) /\ XMatchKids(Tail(want), Tail(got))
XMatch(want, got) ==
  want[1] = got[1] /\ want[2] = got[2] /\ AttrsEq(want[3], got[3]) /\ XMatchKids(want[4], got[4])

\* text XML can carry: no control characters (other than tab, newline and
\* return) and no white space around it, which the schema makes insignificant
XmlChar(c) == c >= 32 \/ c \in {9, 10, 13}
\* ... and not U+FFFE and U+FFFF
XmlText(t) == ValidUtf8(t) /\ \A n \in 1..Len(t) : XmlChar(t[n])
              /\ ~(n + 2 <= Len(t) /\ t[n] = 239 /\ t[n + 1] = 191 /\ t[n + 2] \in {190, 191})
XmlToken(t) == XmlText(t) /\ Trim(t) = t
XmlDescOk(d) ==
  CASE d.kind = "dtmf_descriptor" -> XmlText(d.chars)
    [] d.kind = "audio_descriptor" -> \A n \in 1..Len(d.channels) : XmlText(d.channels[n].iso_code)
    [] d.kind = "segmentation_descriptor" -> \A n \in 1..Len(d.upids) : XmlText(d.upids[n].text)
    [] OTHER -> TRUE
XmlOk(s) == HasInstants(s.cmd) /\ \A n \in 1..Len(s.descs) : XmlDescOk(s.descs[n])
\* ... and round trips
XmlTokens(s) ==
  \A n \in 1..Len(s.descs) :
    s.descs[n].kind = "segmentation_descriptor"
      => \A m \in 1..Len(s.descs[n].upids) : XmlToken(s.descs[n].upids[m].text)
=============================================================================
