-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tools: what `scte35 decode` and `scte35 encode` print, *)
(* given what the library makes of the same input.                         *)
(***************************************************************************)
EXTENDS Text

NL == <<10>>

\* decode: an argument that starts with 0x is hex, everything else base64
DecodeEntry(in) == IF Len(in) >= 2 /\ in[1] = 48 /\ in[2] = 120 THEN "hex" ELSE "b64"

\* the rendering that a value of --out selects
DecodeFormat(out) == IF out \in {"json", "xml"} THEN out ELSE "text"

DecodeOut(rendering) == rendering \o NL
ErrorText(msg) == StrBytes("Error: ") \o msg \o NL

(* Standard error may also have diagnostics of the library's logger in      *)
(* front of the error.                                                      *)
EndsWith(t, x) ==
  /\ Len(t) >= Len(x) /\ SubSeq(t, Len(t) - Len(x) + 1, Len(t)) = x
  /\ Len(t) = Len(x) \/ t[Len(t) - Len(x)] = 10
SaysError(t) ==
  \E n \in 1..Len(t) : t[n] = 69 /\ (n = 1 \/ t[n - 1] = 10) /\ n + 6 <= Len(t)
                       /\ SubSeq(t, n, n + 6) = StrBytes("Error: ")

\* encode: white space in front of a document does not matter
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)

\* U+0085 and U+00A0 are two bytes
IsWide(in, n) == in[n] = 194 /\ n < Len(in) /\ in[n + 1] \in {133, 160}
SpaceAt(in, n) == IsSpace(in[n]) \/ IsWide(in, n) \/ (n > 1 /\ IsWide(in, n - 1))
\* the number of the first byte that is not white space, or 0
FirstNonSpace(in) ==
  IF \A n \in 1..Len(in) : SpaceAt(in, n) THEN 0
  ELSE CHOOSE n \in 1..Len(in) : ~SpaceAt(in, n) /\ \A k \in 1..(n - 1) : SpaceAt(in, k)

DocumentType(in) ==
  LET n == FirstNonSpace(in)
  IN  IF n = 0 THEN "none"
      ELSE CASE in[n] = 60 -> "xml" [] in[n] = 123 -> "json" [] OTHER -> "none"

EncodeOut(b64, hex) ==
  StrBytes("Base64: ") \o b64 \o NL \o StrBytes("Hex   : ") \o hex \o NL
=============================================================================
