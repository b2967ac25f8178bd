-------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* The tabular rendering of a signal: one row per field that is present in *)
(* the section, in syntax order.                                           *)
(***************************************************************************)
EXTENDS Section, Names

KeyNames == <<
  "splice_info_section() {", "table_id", "section_syntax_indicator", "private_indicator",
  "sap_type", "section_length", "}", "protocol_version", "encryption_algorithm",
  "pts_adjustment", "cw_index", "tier", "splice_command_length", "splice_command_type",
  "descriptor_loop_length", "splice_null() {}", "bandwidth_reservation() {}",
  "splice_schedule() {", "splice_count", "splice_event_id", "splice_event_cancel_indicator",
  "event_id_compliance_flag", "out_of_network_indicator", "program_splice_flag",
  "duration_flag", "utc_splice_time", "component_count", "component_tag", "auto_return",
  "duration", "unique_program_id", "avail_num", "avails_expected", "splice_insert() {",
  "splice_immediate_flag", "time_specified_flag", "pts_time", "time_signal() {",
  "private_command() {", "identifier", "private_byte", "private_bytes",
  "avail_descriptor() {", "splice_descriptor_tag", "descriptor_length", "provider_avail_id",
  "dtmf_descriptor() {", "preroll", "dtmf_count", "dtmf_chars",
  "segmentation_descriptor() {", "segmentation_event_id",
  "segmentation_event_cancel_indicator", "segmentation_event_id_compliance_indicator",
  "program_segmentation_flag", "segmentation_duration_flag", "delivery_not_restricted_flag",
  "web_delivery_allowed_flag", "no_regional_blackout_flag", "archive_allowed_flag",
  "device_restrictions", "pts_offset", "segmentation_duration", "segmentation_upid_length",
  "segmentation_upid_type", "format_identifier", "segmentation_upid",
  "segmentation_type_id", "segment_num", "segments_expected", "sub_segment_num",
  "sub_segments_expected", "time_descriptor() {", "tai_seconds", "tai_ns", "utc_offset",
  "audio_descriptor() {", "audio_count", "iso_code", "bit_stream_mode", "num_channels",
  "full_srvc_audio", "private_descriptor() {" >>

KeyTab == FoldLeft(LAMBDA t, s : t @@ (s :> FoldLeft(LAMBDA a, c : Append(a, c), <<>>, StrBytes(s))),
                   ("" :> <<>>), KeyNames)

Row(n, key, v) == <<[n |-> n, k |-> KeyTab[key] \o <<58, 32>> \o v]>>
Line(n, key) == <<[n |-> n, k |-> KeyTab[key]]>>
\* name[i]tail
Item(n, name, i, tail) ==
  <<[n |-> n, k |-> StrBytes(name) \o <<91>> \o DecN(i) \o <<93>> \o StrBytes(tail)]>>

Paren(t) == <<32, 40>> \o t \o <<41>>
CommaParen(t) == <<44>> \o Paren(t)
CueiText == Hex0xW(CUEI)

Concat(n, F(_)) == FoldLeft(LAMBDA a, i : a \o F(i), <<>>, [i \in 1..n |-> i])

BreakRows(n, c) ==
  IF ~c.has_duration THEN <<>>
  ELSE Row(n, "auto_return", BoolBytes(c.auto_return)) \o Row(n, "duration", DecW(c.duration))

AvailRows(n, c) ==
  Row(n, "unique_program_id", DecN(c.unique_program_id))
    \o Row(n, "avail_num", DecN(c.avail_num)) \o Row(n, "avails_expected", DecN(c.avails_expected))

PtsRows(n, c) ==
  Row(n, "time_specified_flag", BoolBytes(c.time_specified))
    \o (IF c.time_specified THEN Row(n, "pts_time", DecW(c.pts_time)) ELSE <<>>)

\* an instant, which the table may show as UTC or as the zone's clocks do
TimeRow(n, key, w) ==
  LET head == KeyTab[key] \o <<58, 32>>
  IN  <<[n |-> n, k |-> head \o DateTime(w, <<32>>) \o StrBytes(" +0000 UTC"),
         z |-> head \o LocalDateTime(w, <<32>>, Zone) \o <<32>> \o ZoneText(Zone, <<>>) \o StrBytes(" LOC")]>>

EventRows(c, i) ==
  LET e == c.events[i]
  IN  Item(1, "event", i - 1, "")
        \o Row(2, "splice_event_id", DecW(e.event_id))
        \o Row(2, "splice_event_cancel_indicator", BoolBytes(e.cancel))
        \o Row(2, "event_id_compliance_flag", BoolBytes(e.compliance))
        \o (IF e.cancel THEN <<>> ELSE
              Row(2, "out_of_network_indicator", BoolBytes(e.out_of_network))
              \o Row(2, "program_splice_flag", BoolBytes(e.program_splice))
              \o Row(2, "duration_flag", BoolBytes(e.has_duration))
              \o (IF e.program_splice THEN TimeRow(2, "utc_splice_time", e.utc_splice_time)
                  ELSE Row(2, "component_count", DecN(Len(e.components)))
                       \o Concat(Len(e.components), LAMBDA j :
                            Item(2, "component", j - 1, "")
                            \o Row(3, "component_tag", DecN(e.components[j].tag))
                            \o TimeRow(3, "utc_splice_time", e.components[j].utc_splice_time)
                            \o Line(2, "}")))
              \o BreakRows(1, e) \o AvailRows(1, e))
        \o Line(1, "}")

InsertRows(c) ==
  Row(1, "splice_event_id", DecW(c.event_id))
    \o Row(1, "splice_event_cancel_indicator", BoolBytes(c.cancel))
    \o (IF c.cancel THEN <<>> ELSE
          Row(1, "out_of_network_indicator", BoolBytes(c.out_of_network))
          \o Row(1, "program_splice_flag", BoolBytes(c.program_splice))
          \o Row(1, "duration_flag", BoolBytes(c.has_duration))
          \o Row(1, "splice_immediate_flag", BoolBytes(c.immediate))
          \o (IF c.program_splice
              THEN IF c.immediate THEN <<>> ELSE PtsRows(1, c)
              ELSE Row(1, "component_count", DecN(Len(c.components)))
                   \o Concat(Len(c.components), LAMBDA j :
                        Item(1, "component", j - 1, "")
                        \o Row(2, "component_tag", DecN(c.components[j].tag))
                        \o (IF c.immediate THEN <<>> ELSE PtsRows(2, c.components[j]))
                        \o Line(1, "}")))
          \o BreakRows(1, c) \o AvailRows(1, c))

HexText(b) == IF b = <<>> THEN <<>> ELSE <<48, 120>> \o HexOf(b, HexL)

CommandRows(c) ==
  CASE c.kind = "splice_null" -> Line(0, "splice_null() {}")
    [] c.kind = "bandwidth_reservation" -> Line(0, "bandwidth_reservation() {}")
    [] c.kind = "time_signal" -> Line(0, "time_signal() {") \o PtsRows(1, c) \o Line(0, "}")
    [] c.kind = "splice_insert" -> Line(0, "splice_insert() {") \o InsertRows(c) \o Line(0, "}")
    [] c.kind = "splice_schedule" ->
         Line(0, "splice_schedule() {") \o Row(1, "splice_count", DecN(Len(c.events)))
           \o Concat(Len(c.events), LAMBDA i : EventRows(c, i)) \o Line(0, "}")
    [] c.kind = "private_command" ->
         Line(0, "private_command() {")
           \o Row(1, "identifier", Hex0xW(c.identifier) \o CommaParen(U32ToBytes(c.identifier)))
           \o Row(1, "private_byte", HexText(c.bytes)) \o Line(0, "}")

UpidRows(u, i) ==
  Item(1, "segmentation_upid", i - 1, " {")
    \o Row(2, "segmentation_upid_type", Hex0x(u.type) \o Paren(UpidName(u)))
    \o (IF u.type = TypeMPU
        THEN Row(2, "format_identifier", IF u.fi = <<>> THEN <<>> ELSE U32ToBytes(u.fi[1]))
        ELSE <<>>)
    \o Row(2, "segmentation_upid", u.text)
    \o Line(1, "}")

SegmentationRows(d) ==
  Row(1, "segmentation_event_id", DecW(d.event_id))
    \o Row(1, "segmentation_event_cancel_indicator", BoolBytes(d.cancel))
    \o Row(1, "segmentation_event_id_compliance_indicator", BoolBytes(d.compliance))
    \o (IF d.cancel THEN <<>> ELSE
          Row(1, "program_segmentation_flag", BoolBytes(d.components = <<>>))
          \o Row(1, "segmentation_duration_flag", BoolBytes(d.has_duration))
          \o Row(1, "delivery_not_restricted_flag", BoolBytes(~d.restricted))
          \o (IF ~d.restricted THEN <<>> ELSE
                Row(1, "web_delivery_allowed_flag", BoolBytes(d.web_delivery_allowed))
                \o Row(1, "no_regional_blackout_flag", BoolBytes(d.no_regional_blackout))
                \o Row(1, "archive_allowed_flag", BoolBytes(d.archive_allowed))
                \o Row(1, "device_restrictions",
                       DecN(d.device_restrictions) \o Paren(DeviceName(d.device_restrictions))))
          \o (IF d.components = <<>> THEN <<>> ELSE
                Row(1, "component_count", DecN(Len(d.components)))
                \o Concat(Len(d.components), LAMBDA j :
                     Item(1, "component", j - 1, " {")
                     \o Row(2, "component_tag", DecN(d.components[j].tag))
                     \o Row(2, "pts_offset", DecW(d.components[j].pts_offset))
                     \o Line(1, "}")))
          \o (IF d.has_duration THEN Row(1, "segmentation_duration", DecW(d.duration)) ELSE <<>>)
          \o Row(1, "segmentation_upid_length", DecN(UpidLength(d.upids)))
          \o Concat(Len(d.upids), LAMBDA i : UpidRows(d.upids[i], i))
          \o Row(1, "segmentation_type_id", Hex0x(d.type_id) \o Paren(SegmentationTypeName(d.type_id)))
          \o Row(1, "segment_num", DecN(d.segment_num))
          \o Row(1, "segments_expected", DecN(d.segments_expected))
          \o (IF d.type_id \in SubSegmentTypes /\ (d.has_sub_num \/ d.has_sub_exp)
              THEN Row(1, "sub_segment_num", DecN(d.sub_segment_num))
                   \o Row(1, "sub_segments_expected", DecN(d.sub_segments_expected))
              ELSE <<>>))

Tenths(n) == DecN(n \div 10) \o <<46>> \o DecN(n % 10) \o <<48>>

DescriptorRows(d) ==
  LET head(comma) ==
        Row(1, "splice_descriptor_tag",
            Hex0x(IF d.kind = "private_descriptor" THEN d.tag ELSE DescSyntax[d.kind].code))
          \o Row(1, "descriptor_length", DecN(Len(EmitDescriptor(d).b) - 2))
          \o Row(1, "identifier",
                 IF d.kind = "private_descriptor"
                 THEN Hex0xW(d.identifier) \o CommaParen(U32ToBytes(d.identifier))
                 ELSE CueiText \o (IF comma THEN CommaParen(CueiBytes) ELSE Paren(CueiBytes)))
  IN  CASE d.kind = "avail_descriptor" ->
             Line(0, "avail_descriptor() {") \o head(TRUE)
               \o Row(1, "provider_avail_id", DecW(d.provider_avail_id)) \o Line(0, "}")
        [] d.kind = "dtmf_descriptor" ->
             Line(0, "dtmf_descriptor() {") \o head(FALSE)
               \o Row(1, "preroll", Tenths(d.preroll))
               \o Row(1, "dtmf_count", DecN(Len(d.chars)))
               \o Row(1, "dtmf_chars", d.chars) \o Line(0, "}")
        [] d.kind = "segmentation_descriptor" ->
             Line(0, "segmentation_descriptor() {") \o head(FALSE)
               \o SegmentationRows(d) \o Line(0, "}")
        [] d.kind = "time_descriptor" ->
             Line(0, "time_descriptor() {") \o head(TRUE)
               \o Row(1, "tai_seconds", DecW(d.tai_seconds)) \o Row(1, "tai_ns", DecW(d.tai_ns))
               \o Row(1, "utc_offset", DecN(d.utc_offset)) \o Line(0, "}")
        [] d.kind = "audio_descriptor" ->
             Line(0, "audio_descriptor() {") \o head(TRUE)
               \o Row(1, "audio_count", DecN(Len(d.channels)))
               \o Concat(Len(d.channels), LAMBDA i :
                    LET c == d.channels[i]
                    IN  Item(1, "audio_channel", i - 1, " {")
                        \o Row(2, "component_tag", DecN(c.tag))
                        \o Row(2, "iso_code", c.iso_code)
                        \o Row(2, "bit_stream_mode", DecN(c.bit_stream_mode))
                        \o Row(2, "num_channels", DecN(c.num_channels))
                        \o Row(2, "full_srvc_audio", BoolBytes(c.full_srvc_audio))
                        \o Line(1, "}"))
               \o Line(0, "}")
        [] d.kind = "private_descriptor" ->
             Line(0, "private_descriptor() {") \o head(TRUE)
               \o Row(1, "private_bytes", HexText(d.bytes)) \o Line(0, "}")

TableRows(s, p) ==                     \* p = EncodeParts(s)
  Line(0, "splice_info_section() {")
    \o Row(1, "table_id", Hex0x(252))
    \o Row(1, "section_syntax_indicator", BoolBytes(FALSE))
    \o Row(1, "private_indicator", BoolBytes(FALSE))
    \o Row(1, "sap_type", DecN(s.sap) \o Paren(SapName(s.sap)))
    \o Row(1, "section_length", DecN(p.seclen))
    \o Line(0, "}")
    \o Row(0, "protocol_version", DecN(s.proto))
    \o Row(0, "encryption_algorithm", DecN(s.alg) \o Paren(EncryptionName(s.alg)))
    \o Row(0, "pts_adjustment", DecW(s.pts))
    \o Row(0, "cw_index", DecN(s.cw))
    \o Row(0, "tier", DecN(s.tier))
    \o (IF s.cmd.kind = "none" THEN <<>>
        ELSE Row(0, "splice_command_length", DecN(p.clen))
             \o Row(0, "splice_command_type", Hex0x(CmdSyntax[s.cmd.kind].code))
             \o CommandRows(s.cmd))
    \o Row(0, "descriptor_loop_length", DecN(p.dlen))
    \o FoldLeft(LAMBDA a, d : a \o DescriptorRows(d), <<>>, s.descs)

\* whether the text of the table is determined: every value has its field
TableKnown(p) == p.fit /\ ~p.dc /\ ~p.over

RECURSIVE Times(_, _)
Times(n, t) == IF n = 0 THEN <<>> ELSE t \o Times(n - 1, t)

TableText(s, prefix, indent, local) ==
  LET rows == TableRows(s, EncodeParts(s))
      margin == <<prefix, prefix \o indent, prefix \o Times(2, indent), prefix \o Times(3, indent)>>
  IN  FoldLeft(LAMBDA a, r : a \o margin[r.n + 1] \o (IF local /\ "z" \in DOMAIN r THEN r.z ELSE r.k) \o <<10>>, <<>>, rows)
=============================================================================
