------------------------------- MODULE Derived ------------------------------
(***************************************************************************)
(* What a signal reports about itself: presence flags, lengths, identifier *)
(* strings and names, as rows <<name, text, known>>.                       *)
(***************************************************************************)
EXTENDS Section, Names

DRow(name, text) == <<<<name, text, TRUE>>>>
DFlag(name, x) == DRow(name, BoolBytes(x))

\* printable bytes as they are, any other as a full stop
AsciiOf(b) == [n \in 1..Len(b) |-> IF b[n] > 31 /\ b[n] < 127 THEN b[n] ELSE 46]

AllOf(n, F(_)) == FoldLeft(LAMBDA a, i : a \o F(i), <<>>, [i \in 1..n |-> i])

CommandDerived(c) ==
  IF c.kind = "none" THEN <<>>
  ELSE DRow("splice_command_type", DecN(CmdSyntax[c.kind].code)) \o
       CASE c.kind = "splice_insert" ->
              DFlag("program_splice_flag", c.program_splice)
                \o DFlag("duration_flag", c.has_duration)
                \o DFlag("time_specified_flag", c.time_specified)
                \o DFlag("program.time_specified_flag", c.time_specified)
                \o AllOf(Len(c.components), LAMBDA i :
                     DFlag("component.time_specified_flag", c.components[i].time_specified)
                     \o DFlag("component.splice_time.time_specified_flag", c.components[i].time_specified))
         [] c.kind = "splice_schedule" ->
              AllOf(Len(c.events), LAMBDA i :
                DFlag("program_splice_flag", c.events[i].program_splice)
                \o DFlag("duration_flag", c.events[i].has_duration))
         [] c.kind = "time_signal" -> DFlag("time_specified_flag", c.time_specified)
         [] c.kind = "private_command" -> DRow("identifier_string", U32ToBytes(c.identifier))
         [] OTHER -> <<>>

UpidDerived(u) ==
  LET b == UpidBytes(u)
  IN  DRow("upid_name", UpidName(u)) \o <<<<"upid_ascii", AsciiOf(b.v), b.k = "ok">>>>

DescriptorDerived(d) ==
  \* (a tag of -1 is one that the observer cannot show)
  LET tag == IF d.kind = "private_descriptor" THEN d.tag ELSE DescSyntax[d.kind].code
  IN  <<<<"splice_descriptor_tag", DecN(tag), tag >= 0>>>> \o
  CASE d.kind = "private_descriptor" -> DRow("identifier_string", U32ToBytes(d.identifier))
    [] d.kind = "segmentation_descriptor" ->
         DRow("name", SegmentationTypeName(d.type_id))
           \o DFlag("delivery_not_restricted_flag", ~d.restricted)
           \o DFlag("program_segmentation_flag", d.components = <<>>)
           \o DFlag("segmentation_duration_flag", d.has_duration)
           \o <<<<"segmentation_upid_length", DecN(UpidLength(d.upids)),
                  \A n \in 1..Len(d.upids) : UpidBytes(d.upids[n]).k = "ok">>>>
           \o AllOf(Len(d.upids), LAMBDA i : UpidDerived(d.upids[i]))
    [] OTHER -> <<>>

DerivedRows(s) ==
  DFlag("encrypted_packet_flag", s.alg # 0) \o DRow("sap_type_name", SapName(s.sap))
    \o CommandDerived(s.cmd)
    \o FoldLeft(LAMBDA a, d : a \o DescriptorDerived(d), <<>>, s.descs)

\* the names of the rows that differ ({"rows"} if there are more or fewer)
DerivedDiff(want, got) ==
  IF Len(want) # Len(got) THEN {"rows"}
  ELSE {want[n][1] : n \in {m \in 1..Len(want) :
          want[m][1] # got[m][1] \/ (want[m][3] /\ want[m][2] # got[m][2])}}

----------------------------------------------------------------------------
\* the duration of a signal in ticks, as decimal digits
DurationDigits(s) ==
  IF s.cmd.kind = "splice_insert" /\ s.cmd.has_duration THEN Digits(s.cmd.duration)
  ELSE FoldLeft(LAMBDA a, d : IF d.kind = "segmentation_descriptor" /\ d.has_duration
                              THEN AddD(a, Digits(d.duration)) ELSE a,
                <<>>, s.descs)
DurationNs(s) == DigitsText(TicksToNs(DurationDigits(s)))
=============================================================================
