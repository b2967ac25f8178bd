-------------------------------- MODULE Upid --------------------------------
(***************************************************************************)
(* segmentation_upid() contents (SCTE 35 10.3.3.1) as bytes and as text.   *)
(*                                                                         *)
(* A UPID value is [type, fmt, fi, text, dc]: its segmentation_upid_type,  *)
(* the format name, the format identifier of an MPU() (<<>> or <<wide>>),  *)
(* its text, and dc ("don't care"): the standard does not define a content *)
(* of this length for the type and nothing is claimed about the text.      *)
(***************************************************************************)
EXTENDS Bits

TypeUMID == 4
TypeISANDep == 5
TypeISAN == 6
TypeTI == 8
TypeEIDR == 10
TypeMPU == 12
TypeMID == 13

FmtText == "text"
FmtB64 == "base-64"

\* the canonical form of a 12 byte compact binary EIDR
EidrText(b) ==
  <<49, 48, 46>> \o DecN(b[1] * 256 + b[2]) \o <<47>>
    \o HexOf(SubSeq(b, 3, 4), HexU) \o <<45>> \o HexOf(SubSeq(b, 5, 6), HexU)
    \o <<45>> \o HexOf(SubSeq(b, 7, 8), HexU) \o <<45>>
    \o HexOf(SubSeq(b, 9, 10), HexU) \o <<45>> \o HexOf(SubSeq(b, 11, 12), HexU)

PadLeft(b, n) == IF Len(b) >= n THEN b ELSE [i \in 1..(n - Len(b)) |-> 0] \o b
PadRight(b, n) == IF Len(b) >= n THEN b ELSE b \o [i \in 1..(n - Len(b)) |-> 0]

Upid(type, fmt, fi, text, dc) ==
  [type |-> type, fmt |-> fmt, fi |-> fi, text |-> text, dc |-> dc]

\* what a decoder makes of the content b
UpidOf(type, b) ==
  IF type = TypeEIDR THEN
    IF Len(b) = 12 THEN Upid(type, FmtText, <<>>, EidrText(b), FALSE)
    ELSE IF \E i \in 1..Len(b) : b[i] = 47      \* text already
         THEN Upid(type, FmtText, <<>>, b, FALSE)
    ELSE Upid(type, FmtText, <<>>, <<>>, FALSE)
  ELSE IF type \in {TypeISAN, TypeISANDep} THEN
    Upid(type, FmtB64, <<>>, B64Of(b), FALSE)
  ELSE IF type = TypeMPU THEN
    Upid(type, FmtB64, <<BytesToU32(PadRight(SubSeq(b, 1, IF Len(b) < 4 THEN Len(b) ELSE 4), 4))>>,
         B64Of(IF Len(b) > 4 THEN SubSeq(b, 5, Len(b)) ELSE <<>>), FALSE)
  ELSE IF type = TypeTI THEN
    Upid(type, FmtText, <<>>, DecOfBytes(b), Len(b) > 8)
  ELSE Upid(type, FmtText, <<>>, Utf8OfLatin1(b), FALSE)

----------------------------------------------------------------------------
(* the bytes an encoder writes: [k, v] with k = "ok" or "dc" *)

Split(t, seps) ==                      \* non-empty fields
  LET st == FoldLeft(LAMBDA a, c :
                IF c \in seps
                THEN [done |-> IF a.cur = <<>> THEN a.done ELSE Append(a.done, a.cur),
                      cur |-> <<>>]
                ELSE [done |-> a.done, cur |-> Append(a.cur, c)],
              [done |-> <<>>, cur |-> <<>>], t)
  IN  IF st.cur = <<>> THEN st.done ELSE Append(st.done, st.cur)

EidrBytes(text) ==
  LET parts == Split(text, {46, 47})
      sfx == SelectSeq(parts[3], LAMBDA c : c # 45)
      num == ParseDec(parts[2], 4)
      hex == ParseHex(sfx)
  IN  IF Len(parts) # 3 THEN [k |-> "ok", v |-> text]
      ELSE IF ~num.ok \/ num.v[1] # 0 \/ num.v[2] # 0 \/ Len(parts[2]) > 9
           THEN [k |-> "dc", v |-> <<>>]
      ELSE IF ~hex.ok THEN [k |-> "ok", v |-> text]
      ELSE IF Len(hex.v) # 10 THEN [k |-> "dc", v |-> <<>>]
      ELSE [k |-> "ok", v |-> <<num.v[3], num.v[4]>> \o hex.v]

UpidBytes(u) ==
  IF u.type = TypeEIDR THEN EidrBytes(Trim(u.text))
  ELSE IF u.type \in {TypeISAN, TypeISANDep} THEN
    LET r == ParseB64(Trim(u.text))
    IN  [k |-> IF r.ok THEN "ok" ELSE "dc", v |-> r.v]
  ELSE IF u.type = TypeMPU THEN
    LET r == ParseB64(Trim(u.text))
    IN  [k |-> IF r.ok THEN "ok" ELSE "dc",
         v |-> (IF u.fi = <<>> THEN <<>> ELSE U32ToBytes(u.fi[1])) \o r.v]
  ELSE IF u.type = TypeTI THEN
    LET r == ParseDec(Trim(u.text), 8)
    IN  [k |-> IF r.ok THEN "ok" ELSE "dc", v |-> r.v]
  ELSE LET r == Latin1OfUtf8(u.text)
       IN  [k |-> IF r.ok THEN "ok" ELSE "dc", v |-> r.v]

\* UPIDs whose text is the canonical spelling of its content
CanonicalUpid(u) ==
  LET r == UpidBytes(u)
  IN  /\ r.k = "ok"
      /\ UpidOf(u.type, r.v) = [u EXCEPT !.dc = FALSE]

UpidEq(spec, seen) ==
  /\ spec.type = seen.type
  /\ spec.dc \/ (spec.fmt = seen.fmt /\ spec.fi = seen.fi /\ spec.text = seen.text)
=============================================================================
