------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The syntax tables of ANSI/SCTE 35 2022b as data.  One table per         *)
(* structure is the single source for decoding (Codec!Parse), encoding     *)
(* (Codec!Emit), generation and the syntax exported to the driver.         *)
(*                                                                         *)
(* The value of a structure is a flat record with one entry per field of   *)
(* the structure; a field that is absent from the section has its default. *)
(*                                                                         *)
(*   U(n, f)     f is an unsigned field of n <= 24 bits                    *)
(*   W(n, f)     f is a wide unsigned field of n > 24 bits                 *)
(*   B(f)        f is a flag           NB(f)    f is an inverted flag      *)
(*   R(n)        n reserved bits, written as ones and ignored by readers   *)
(*   Count(n, f) the number of entries (bytes) of the list (string) f      *)
(*   Loop(f, t)  the entries of f, each with the syntax t                  *)
(*   Str(f)      the bytes of f, as many as the last Count said            *)
(*   Fix(n, f)   exactly n bytes f                                         *)
(*   Rest(f)     all bytes left in the structure                           *)
(*   None(f)     a flag that is 1 iff list f is empty                      *)
(*   Some(f, t)  t, if the last None flag was 0                            *)
(*   If(f, v, t, e)  t if flag f has the value v, otherwise e              *)
(*   Upids(f)    segmentation_upid_type, _length and segmentation_upid()   *)
(*   Sub         sub_segment_num and sub_segments_expected, if present     *)
(***************************************************************************)
EXTENDS Upid

U(n, f) == [k |-> "u", n |-> n, f |-> f]
W(n, f) == [k |-> "w", n |-> n, f |-> f]
B(f) == [k |-> "b", n |-> 1, f |-> f]
NB(f) == [k |-> "nb", n |-> 1, f |-> f]
R(n) == [k |-> "r", n |-> n, f |-> ""]
Count(n, f) == [k |-> "count", n |-> n, f |-> f]
Loop(f, t, d) == [k |-> "loop", n |-> 0, f |-> f, t |-> t, d |-> d]
Str(f) == [k |-> "str", n |-> 0, f |-> f]
Fix(n, f) == [k |-> "fix", n |-> n, f |-> f]
Rest(f) == [k |-> "rest", n |-> 0, f |-> f]
None(f) == [k |-> "none", n |-> 1, f |-> f]
Some(f, t) == [k |-> "some", n |-> 0, f |-> f, t |-> t]
If(f, v, t, e) == [k |-> "if", n |-> 0, f |-> f, v |-> v, t |-> t, e |-> e]
Upids(f) == [k |-> "upids", n |-> 0, f |-> f]
Sub == [k |-> "sub", n |-> 0, f |-> "type_id"]

----------------------------------------------------------------------------
CUEI == <<67, 5588297>>                \* 0x43554549
CueiBytes == <<67, 85, 69, 73>>

\* 9.4.1 splice_time()
SpliceTime == <<B("time_specified"),
                If("time_specified", TRUE, <<R(6), W(33, "pts_time")>>, <<R(7)>>)>>

\* 9.4.2 break_duration()
BreakDuration == <<B("auto_return"), R(6), W(33, "duration")>>

----------------------------------------------------------------------------
(* 9.7 commands *)

SpliceNullSyn == <<>>
SpliceNull0 == [kind |-> "splice_null"]

ScheduleComponent == <<U(8, "tag"), W(32, "utc_splice_time")>>
ScheduleComponent0 == [tag |-> 0, utc_splice_time |-> Zero]

ScheduleEvent ==
  <<W(32, "event_id"), B("cancel"), NB("compliance"), R(6),
    If("cancel", FALSE,
       <<B("out_of_network"), B("program_splice"), B("has_duration"), R(5),
         If("program_splice", TRUE,
            <<W(32, "utc_splice_time")>>,
            <<Count(8, "components"),
              Loop("components", ScheduleComponent, ScheduleComponent0)>>),
         If("has_duration", TRUE, BreakDuration, <<>>),
         U(16, "unique_program_id"), U(8, "avail_num"), U(8, "avails_expected")>>,
       <<>>)>>
ScheduleEvent0 ==
  [event_id |-> Zero, cancel |-> FALSE, compliance |-> FALSE,
   out_of_network |-> FALSE, program_splice |-> FALSE, has_duration |-> FALSE,
   utc_splice_time |-> Zero, components |-> <<>>, auto_return |-> FALSE,
   duration |-> Zero, unique_program_id |-> 0, avail_num |-> 0,
   avails_expected |-> 0]

SpliceScheduleSyn == <<Count(8, "events"), Loop("events", ScheduleEvent, ScheduleEvent0)>>
SpliceSchedule0 == [kind |-> "splice_schedule", events |-> <<>>]

InsertComponentImm == <<U(8, "tag")>>
InsertComponent == <<U(8, "tag")>> \o SpliceTime
InsertComponent0 == [tag |-> 0, time_specified |-> FALSE, pts_time |-> Zero]

SpliceInsertSyn ==
  <<W(32, "event_id"), B("cancel"), R(7),
    If("cancel", FALSE,
       <<B("out_of_network"), B("program_splice"), B("has_duration"), B("immediate"), R(4),
         If("program_splice", TRUE,
            <<If("immediate", FALSE, SpliceTime, <<>>)>>,
            <<Count(8, "components"),
              If("immediate", FALSE,
                 <<Loop("components", InsertComponent, InsertComponent0)>>,
                 <<Loop("components", InsertComponentImm, InsertComponent0)>>)>>),
         If("has_duration", TRUE, BreakDuration, <<>>),
         U(16, "unique_program_id"), U(8, "avail_num"), U(8, "avails_expected")>>,
       <<>>)>>
SpliceInsert0 ==
  [kind |-> "splice_insert", event_id |-> Zero, cancel |-> FALSE,
   out_of_network |-> FALSE, program_splice |-> FALSE, has_duration |-> FALSE,
   immediate |-> FALSE, time_specified |-> FALSE, pts_time |-> Zero,
   components |-> <<>>, auto_return |-> FALSE, duration |-> Zero,
   unique_program_id |-> 0, avail_num |-> 0, avails_expected |-> 0]

TimeSignalSyn == SpliceTime
TimeSignal0 == [kind |-> "time_signal", time_specified |-> FALSE, pts_time |-> Zero]

BandwidthReservationSyn == <<>>
BandwidthReservation0 == [kind |-> "bandwidth_reservation"]

PrivateCommandSyn == <<W(32, "identifier"), Rest("bytes")>>
PrivateCommand0 == [kind |-> "private_command", identifier |-> Zero, bytes |-> <<>>]

NoCommand == [kind |-> "none"]

CmdKind(type) ==
  CASE type = 0 -> "splice_null"
    [] type = 4 -> "splice_schedule"
    [] type = 5 -> "splice_insert"
    [] type = 6 -> "time_signal"
    [] type = 7 -> "bandwidth_reservation"
    [] OTHER -> "private_command"

CmdSyntax ==
  [splice_null |-> [code |-> 0, syn |-> SpliceNullSyn, init |-> SpliceNull0],
   splice_schedule |-> [code |-> 4, syn |-> SpliceScheduleSyn, init |-> SpliceSchedule0],
   splice_insert |-> [code |-> 5, syn |-> SpliceInsertSyn, init |-> SpliceInsert0],
   time_signal |-> [code |-> 6, syn |-> TimeSignalSyn, init |-> TimeSignal0],
   bandwidth_reservation |-> [code |-> 7, syn |-> BandwidthReservationSyn, init |-> BandwidthReservation0],
   private_command |-> [code |-> 255, syn |-> PrivateCommandSyn, init |-> PrivateCommand0]]

----------------------------------------------------------------------------
(* 10 descriptors; the tables start behind splice_descriptor_tag,           *)
(* descriptor_length and identifier                                        *)

AvailSyn == <<W(32, "provider_avail_id")>>
Avail0 == [kind |-> "avail_descriptor", provider_avail_id |-> Zero]

DtmfSyn == <<U(8, "preroll"), Count(3, "chars"), R(5), Str("chars")>>
Dtmf0 == [kind |-> "dtmf_descriptor", preroll |-> 0, chars |-> <<>>]

\* segmentation_type_ids that may be followed by sub-segment fields
SubSegmentTypes == {48, 50, 52, 54, 56, 58, 68, 70}

SegComponent == <<U(8, "tag"), R(7), W(33, "pts_offset")>>
SegComponent0 == [tag |-> 0, pts_offset |-> Zero]

SegmentationSyn ==
  <<W(32, "event_id"), B("cancel"), NB("compliance"), R(6),
    If("cancel", FALSE,
       <<None("components"), B("has_duration"), NB("restricted"),
         If("restricted", TRUE,
            <<B("web_delivery_allowed"), B("no_regional_blackout"),
              B("archive_allowed"), U(2, "device_restrictions")>>,
            <<R(5)>>),
         Some("components",
              <<Count(8, "components"), Loop("components", SegComponent, SegComponent0)>>),
         If("has_duration", TRUE, <<W(40, "duration")>>, <<>>),
         Upids("upids"),
         U(8, "type_id"), U(8, "segment_num"), U(8, "segments_expected"),
         Sub>>,
       <<>>)>>
Segmentation0 ==
  [kind |-> "segmentation_descriptor", event_id |-> Zero, cancel |-> FALSE,
   compliance |-> FALSE, has_duration |-> FALSE, restricted |-> FALSE,
   web_delivery_allowed |-> FALSE, no_regional_blackout |-> FALSE,
   archive_allowed |-> FALSE, device_restrictions |-> 0, components |-> <<>>,
   duration |-> Zero, upids |-> <<>>, type_id |-> 0, segment_num |-> 0,
   segments_expected |-> 0, has_sub_num |-> FALSE, sub_segment_num |-> 0,
   has_sub_exp |-> FALSE, sub_segments_expected |-> 0]

TimeSyn == <<W(48, "tai_seconds"), W(32, "tai_ns"), U(16, "utc_offset")>>
Time0 == [kind |-> "time_descriptor", tai_seconds |-> Zero, tai_ns |-> Zero, utc_offset |-> 0]

AudioChannelSyn == <<U(8, "tag"), Fix(3, "iso_code"), U(3, "bit_stream_mode"),
                     U(4, "num_channels"), B("full_srvc_audio")>>
AudioChannel0 == [tag |-> 0, iso_code |-> <<>>, bit_stream_mode |-> 0,
                  num_channels |-> 0, full_srvc_audio |-> FALSE]
AudioSyn == <<Count(4, "channels"), R(4), Loop("channels", AudioChannelSyn, AudioChannel0)>>
Audio0 == [kind |-> "audio_descriptor", channels |-> <<>>]

PrivateDescSyn == <<Rest("bytes")>>
PrivateDesc0 == [kind |-> "private_descriptor", tag |-> 0, identifier |-> Zero, bytes |-> <<>>]

DescKind(identifier, tag) ==
  IF identifier # CUEI THEN "private_descriptor"
  ELSE CASE tag = 0 -> "avail_descriptor"
         [] tag = 1 -> "dtmf_descriptor"
         [] tag = 2 -> "segmentation_descriptor"
         [] tag = 3 -> "time_descriptor"
         [] tag = 4 -> "audio_descriptor"
         [] OTHER -> "private_descriptor"

DescSyntax ==
  [avail_descriptor |-> [code |-> 0, syn |-> AvailSyn, init |-> Avail0],
   dtmf_descriptor |-> [code |-> 1, syn |-> DtmfSyn, init |-> Dtmf0],
   segmentation_descriptor |-> [code |-> 2, syn |-> SegmentationSyn, init |-> Segmentation0],
   time_descriptor |-> [code |-> 3, syn |-> TimeSyn, init |-> Time0],
   audio_descriptor |-> [code |-> 4, syn |-> AudioSyn, init |-> Audio0],
   private_descriptor |-> [code |-> -1, syn |-> PrivateDescSyn, init |-> PrivateDesc0]]

----------------------------------------------------------------------------
(* 9.6 the part of splice_info_section() in front of the command *)

HeaderSyn ==
  <<R(8), R(1), R(1), U(2, "sap_type"), R(12),
    U(8, "protocol_version"), B("encrypted"), U(6, "encryption_algorithm"),
    W(33, "pts_adjustment"), U(8, "cw_index"), U(12, "tier"),
    U(12, "command_length"), U(8, "command_type")>>
Header0 ==
  [sap_type |-> 0, protocol_version |-> 0, encrypted |-> FALSE,
   encryption_algorithm |-> 0, pts_adjustment |-> Zero, cw_index |-> 0,
   tier |-> 0, command_length |-> 0, command_type |-> 0]
HeaderBits == 112
=============================================================================
