------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* The code tables of SCTE 35: segmentation_type_id (Table 23),            *)
(* segmentation_upid_type (Table 22), encryption_algorithm (Table 27),     *)
(* device_restrictions (Table 21), sap_type.                               *)
(***************************************************************************)
EXTENDS Text

SegmentationTypeNames == <<
  <<0, "Not Indicated">>, <<1, "Content Identification">>,
  <<16, "Program Start">>, <<17, "Program End">>,
  <<18, "Program Early Termination">>, <<19, "Program Breakaway">>,
  <<20, "Program Resumption">>, <<21, "Program Runover Planned">>,
  <<22, "Program Runover Unplanned">>, <<23, "Program Overlap Start">>,
  <<24, "Program Blackout Override">>, <<25, "Program Start - In Progress">>,
  <<32, "Chapter Start">>, <<33, "Chapter End">>,
  <<34, "Break Start">>, <<35, "Break End">>,
  <<36, "Opening Credit Start">>, <<37, "Opening Credit End">>,
  <<38, "Closing Credit Start">>, <<39, "Closing Credit End">>,
  <<48, "Provider Advertisement Start">>, <<49, "Provider Advertisement End">>,
  <<50, "Distributor Advertisement Start">>, <<51, "Distributor Advertisement End">>,
  <<52, "Provider Placement Opportunity Start">>, <<53, "Provider Placement Opportunity End">>,
  <<54, "Distributor Placement Opportunity Start">>, <<55, "Distributor Placement Opportunity End">>,
  <<56, "Provider Overlay Placement Opportunity Start">>, <<57, "Provider Overlay Placement Opportunity End">>,
  <<58, "Distributor Overlay Placement Opportunity Start">>, <<59, "Distributor Overlay Placement Opportunity End">>,
  <<60, "Provider Promo Start">>, <<61, "Provider Promo End">>,
  <<62, "Distributor Promo Start">>, <<63, "Distributor Promo End">>,
  <<64, "Unscheduled Event Start">>, <<65, "Unscheduled Event End">>,
  <<66, "Alternate Content Opportunity Start">>, <<67, "Alternate Content Opportunity End">>,
  <<68, "Provider Ad Block Start">>, <<69, "Provider Ad Block End">>,
  <<70, "Distributor Ad Block Start">>, <<71, "Distributor Ad Block End">>,
  <<80, "Network Start">>, <<81, "Network End">> >>

UpidTypeNames == <<
  <<0, "Not Used">>, <<1, "User Defined">>, <<2, "ISCI">>, <<3, "Ad-ID">>,
  <<4, "UMID">>, <<5, "ISAN (Deprecated)">>, <<6, "ISAN">>, <<7, "TID">>,
  <<8, "TI">>, <<9, "ADI">>, <<10, "EIDR: ">>, <<11, "ATSC Content Identifier">>,
  <<12, "MPU()">>, <<13, "MID()">>, <<14, "ADS Information">>, <<15, "URI">>,
  <<16, "UUID">>, <<17, "SCR">> >>

\* a table as bytes by code + 1, for codes 0..255, built once
NameTable(rows, other) ==
  LET dflt == StrBytes(other)
  IN  FoldLeft(LAMBDA t, c :
        LET hit == SelectSeq(rows, LAMBDA r : r[1] = c)
        IN  Append(t, IF hit = <<>> THEN dflt ELSE StrBytes(hit[1][2])),
      <<>>, [n \in 1..256 |-> n - 1])

SegTable == NameTable(SegmentationTypeNames, "Unknown")
UpidTable == NameTable(UpidTypeNames, "Unknown")

SegmentationTypeName(c) == IF c \in 0..255 THEN SegTable[c + 1] ELSE StrBytes("Unknown")

HasPrefix(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

\* EIDR registries by DOI prefix
EidrKind(text) ==
  IF HasPrefix(text, StrBytes("10.5237")) THEN StrBytes("Party ID")
  ELSE IF HasPrefix(text, StrBytes("10.5238")) THEN StrBytes("User ID")
  ELSE IF HasPrefix(text, StrBytes("10.5239")) THEN StrBytes("Service ID")
  ELSE IF HasPrefix(text, StrBytes("10.5240")) THEN StrBytes("Content ID")
  ELSE <<>>

UpidName(u) ==
  (IF u.type \in 0..255 THEN UpidTable[u.type + 1] ELSE StrBytes("Unknown"))
    \o (IF u.type = 10 THEN EidrKind(u.text) ELSE <<>>)

EnDash == <<32, 226, 128, 147, 32>>
EncryptionName(a) ==
  CASE a = 0 -> StrBytes("No encryption")
    [] a = 1 -> StrBytes("DES") \o EnDash \o StrBytes("ECB mode")
    [] a = 2 -> StrBytes("DES") \o EnDash \o StrBytes("CBC mode")
    [] a = 3 -> StrBytes("Triple DES EDE3") \o EnDash \o StrBytes("ECB mode")
    [] OTHER -> StrBytes("User private")

DeviceName(d) ==
  CASE d = 0 -> StrBytes("Restrict Group 0")
    [] d = 1 -> StrBytes("Restrict Group 1")
    [] d = 2 -> StrBytes("Restrict Group 2")
    [] d = 3 -> StrBytes("None")
    [] OTHER -> StrBytes("Unknown")

SapName(s) ==
  CASE s = 0 -> StrBytes("Type 1")
    [] s = 1 -> StrBytes("Type 2")
    [] s = 2 -> StrBytes("Type 3")
    [] OTHER -> StrBytes("Not Specified")
=============================================================================
