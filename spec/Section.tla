------------------------------ MODULE Section -------------------------------
(***************************************************************************)
(* splice_info_section(): what a decoder makes of a byte string and what   *)
(* bytes an encoder makes of a signal.                                     *)
(*                                                                         *)
(* A signal is a record with the header fields sap, proto, alg, pts, cw,   *)
(* tier, preroll (XML only), the command cmd and the descriptors descs     *)
(* (records with a field kind, see Syntax), and stuffing, the              *)
(* alignment_stuffing() bytes that travel with a decoded signal.           *)
(***************************************************************************)
EXTENDS Codec

\* the header fields of a parsed section as a signal without content
SignalOf(h) ==
  [sap |-> h.sap_type, proto |-> h.protocol_version, alg |-> h.encryption_algorithm,
   pts |-> h.pts_adjustment, cw |-> h.cw_index, tier |-> h.tier,
   preroll |-> Zero, cmd |-> NoCommand, descs |-> <<>>]

ParseHeader(b) ==
  ParseItems(b, [p |-> 0, e |-> Header0, c |-> 0, z |-> FALSE], HeaderSyn).e

ParseCommand(type, s) ==               \* [v, err, used]
  LET c == CmdSyntax[CmdKind(type)] IN Parse(s, 0, c.syn, c.init)

\* one descriptor.  loop: the bytes of the descriptor loop, i: byte offset of
\* the descriptor in it.  [v, err, next]
ParseDescriptor(loop, i) ==
  LET tag == ByteAt(loop, i)
      len == ByteAt(loop, i + 1)
      ident == GetW(loop, 8 * (i + 2), 32)
      kind == DescKind(ident, tag)
      s == SliceAt(loop, i, len + 2)
      d == DescSyntax[kind]
      r == Parse(s, 48, d.syn, d.init)
      \* a descriptor that is too short for an identifier
      v == IF kind = "private_descriptor"
           THEN [r.v EXCEPT !.tag = tag, !.identifier = GetW(s, 16, 32)]
           ELSE r.v
  IN  [v |-> v, err |-> r.err, next |-> i + 2 + len]

RECURSIVE ParseDescriptors(_, _, _)
ParseDescriptors(loop, i, acc) ==      \* sequence of [v, err]
  IF i >= Len(loop) THEN acc
  ELSE LET r == ParseDescriptor(loop, i)
           \* a descriptor must end within the loop
           cut == r.next > Len(loop)
       IN  ParseDescriptors(loop, r.next,
              Append(acc, [v |-> r.v, err |-> IF r.err = "none" /\ cut THEN "cut" ELSE r.err]))

(***************************************************************************)
(* DecodeSection: the outcome of decoding b.                               *)
(*   errs    the error classes an implementation may report ({"none"} if   *)
(*           decoding succeeds)                                            *)
(*   sig     the signal; stage says how far it is determined:              *)
(*     "all"     everything is                                             *)
(*     "descs"   everything but the descriptors marked in bad              *)
(*     "header"  the header only (the command is damaged)                  *)
(*     "nothing" not even the header is complete                           *)
(***************************************************************************)
LegacyLength == 4095

DecodeSection(b) ==
  LET h == ParseHeader(b)
      legacy == h.command_length = LegacyLength
      avail == SliceAt(b, 14, IF legacy THEN Len(b) ELSE h.command_length)
      c == ParseCommand(h.command_type, avail)
      cerr == IF legacy /\ c.err = "underflow" THEN "none" ELSE c.err
      clen == IF legacy THEN c.used \div 8 ELSE h.command_length
      lp == 14 + clen                  \* offset of descriptor_loop_length
      llen == GetN(b, 8 * lp, 16)
      loop == SliceAt(b, lp + 2, llen)
      ds == ParseDescriptors(loop, 0, <<>>)
      bad == {i \in 1..Len(ds) : ds[i].err # "none"}
      derrs == {IF ds[i].err = "cut" THEN "overflow" ELSE ds[i].err : i \in bad}
      sp == lp + 2 + llen              \* offset of alignment_stuffing
      trailer == IF h.encrypted THEN 8 ELSE 4
      nst == Len(b) - sp - trailer     \* negative: the section is too short
      \* the command claims more than there is
      cmdCut == ~legacy /\ 14 + h.command_length > Len(b)
      base == SignalOf(h)
      withCmd == [base EXCEPT !.cmd = c.v]
      full == [withCmd EXCEPT !.descs = [i \in 1..Len(ds) |-> ds[i].v]]
  IN  IF Len(b) < 14 THEN
        [errs |-> {"overflow"} \cup ({cerr} \ {"none"}), stage |-> "nothing", sig |-> base, bad |-> {}, stuffing |-> <<>>]
      ELSE IF cerr # "none" \/ cmdCut THEN
        [errs |-> (IF cmdCut THEN {"overflow"} ELSE {}) \cup ({cerr} \ {"none"}), stage |-> "header", sig |-> base, bad |-> {}, stuffing |-> <<>>]
      ELSE IF bad # {} THEN
        [errs |-> derrs, stage |-> "descs", sig |-> full, bad |-> bad, stuffing |-> <<>>]
      ELSE IF nst < 0 THEN
        [errs |-> {"overflow"}, stage |-> "all", sig |-> full, bad |-> {}, stuffing |-> <<>>]
      ELSE
        [errs |-> {IF CrcValid(b) THEN "none" ELSE "crc"}, stage |-> "all", sig |-> full,
         bad |-> {}, stuffing |-> SliceAt(b, sp, nst)]

----------------------------------------------------------------------------
(* EncodeSignal: [k, b] with k =                                           *)
(*   "ok"      b is the section                                            *)
(*   "refuse"  the signal does not fit the syntax, an error is required    *)
(*   "open"    some value is out of the range of its field; nothing is     *)
(*             said about the bytes, except that they are well-framed      *)
(***************************************************************************)

EmitCommand(c) == Emit(c, CmdSyntax[c.kind].syn)

\* [b, fit, over, dc, len]
EmitDescriptor(d) ==
  LET e == Emit(d, DescSyntax[d.kind].syn)
      priv == d.kind = "private_descriptor"
      tag == IF priv THEN d.tag ELSE DescSyntax[d.kind].code
      ident == IF priv THEN d.identifier ELSE CUEI
      ok == FitsN(tag, 8) /\ FitsW(ident, 32)
      len == Len(e.w.out) + 4
  IN  [b |-> IF ok THEN <<tag, len % 256>> \o U32ToBytes(ident) \o e.w.out ELSE e.w.out,
       fit |-> e.fit /\ ok, over |-> e.over \/ len > 255, dc |-> e.dc]

EmitDescriptors(ds) ==
  FoldLeft(LAMBDA a, d :
      LET e == EmitDescriptor(d)
      IN  [b |-> a.b \o e.b, fit |-> a.fit /\ e.fit, over |-> a.over \/ e.over,
           dc |-> a.dc \/ e.dc],
    [b |-> <<>>, fit |-> TRUE, over |-> FALSE, dc |-> FALSE], ds)

FlagBit(x, n) == IF x THEN n ELSE 0

\* the pieces of the encoding and their lengths
EncodeParts(s) ==
  LET c == IF s.cmd.kind = "none" THEN [w |-> NoBits, fit |-> TRUE, over |-> FALSE, dc |-> FALSE]
           ELSE EmitCommand(s.cmd)
      d == EmitDescriptors(s.descs)
      clen == Len(c.w.out)
      dlen == Len(d.b)
      seclen == 11 + clen + 2 + dlen + Len(s.stuffing) + (IF s.alg # 0 THEN 8 ELSE 4)
  IN  [c |-> c.w.out, d |-> d.b, clen |-> clen, dlen |-> dlen, seclen |-> seclen,
       over |-> c.over \/ d.over \/ seclen > 4095,
       fit |-> c.fit /\ d.fit /\ FitsN(s.sap, 2) /\ FitsN(s.proto, 8) /\ FitsN(s.alg, 6)
               /\ FitsW(s.pts, 33) /\ FitsN(s.cw, 8) /\ FitsN(s.tier, 12),
       dc |-> c.dc \/ d.dc]

EncodeSignal(s) ==
  IF s.cmd.kind = "none" THEN [k |-> "refuse", b |-> <<>>]
  ELSE
  LET p == EncodeParts(s)
      encrypted == s.alg # 0
      pts == WToBytes(s.pts)           \* 48 bits, the upper 15 are zero
      head == <<252,
                s.sap * 16 + p.seclen \div 256, p.seclen % 256,
                s.proto,
                FlagBit(encrypted, 128) + s.alg * 2 + (pts[2] % 2),
                pts[3], pts[4], pts[5], pts[6],
                s.cw,
                s.tier \div 16, (s.tier % 16) * 16 + p.clen \div 256, p.clen % 256,
                CmdSyntax[s.cmd.kind].code>>
      body == head \o p.c \o <<p.dlen \div 256, p.dlen % 256>> \o p.d \o s.stuffing
  IN  IF p.over THEN [k |-> "refuse", b |-> <<>>]
      ELSE IF ~p.fit \/ p.dc THEN [k |-> "open", b |-> <<>>]
      ELSE IF encrypted THEN [k |-> "ecrc", b |-> body]   \* E_CRC_32 is left open
      ELSE [k |-> "ok", b |-> body \o CrcBytes(body)]
=============================================================================
