------------------------------ MODULE DocRead -------------------------------
(***************************************************************************)
(* Reading documents: the signal a JSON or XML document stands for, or     *)
(* that it is in error.  Results are [ok, v].                              *)
(*                                                                         *)
(* Nothing is claimed about a document that mentions a member, attribute   *)
(* or element of a structure twice.                                        *)
(***************************************************************************)
EXTENDS Doc

Good(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE, v |-> <<>>]

\* a decimal number of at most 64 bits as 8 bytes
DecBytes(t) == ParseDec(t, 8)

\* 8 bytes as the number an observer sees (see driver/val.go)
ToW(b) ==
  <<IF b[1] # 0 \/ b[2] >= 64 THEN 1073741824
    ELSE ((b[2] * 256 + b[3]) * 256 + b[4]) * 256 + b[5],
    (b[6] * 256 + b[7]) * 256 + b[8]>>
Below32(b) == b[1] = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] = 0
ToN(b) == IF b[5] >= 128 THEN -1 ELSE ((b[5] * 256 + b[6]) * 256 + b[7]) * 256 + b[8]

ReadNumber(t, ty) ==
  LET r == DecBytes(t)
  IN  IF ~r.ok THEN Bad
      ELSE IF ty = "w64" THEN Good(ToW(r.v))
      ELSE IF ~Below32(r.v) THEN Bad
      ELSE IF ty = "u32" THEN Good(ToN(r.v))
      ELSE IF ty = "opt32" THEN Good(<<ToW(r.v)>>)
      ELSE Good(ToW(r.v))

NumberTypes == {"u32", "w32", "w64", "opt32"}

BytesStr(t) == FoldLeft(LAMBDA a, c : a \o SubSeq(Printable, c - 31, c - 31), "", t)

ReadText(t, ty) ==
  CASE ty = "fmt" -> Good(BytesStr(t))
    [] ty = "hex" -> ParseHex(t)
    [] ty = "time" -> ParseRfc3339(t)
    [] OTHER -> Good(t)

----------------------------------------------------------------------------
(* JSON *)

Member(node, key) ==                   \* the member or null
  FoldLeft(LAMBDA a, kv : IF kv[1] = key THEN kv[2] ELSE a, JNull, node[4])

JRead(n, ty) ==                        \* n is not null
  IF ty \in NumberTypes THEN IF n[1] = "n" THEN ReadNumber(StrBytes(n[2]), ty) ELSE Bad
  ELSE IF ty = "b" THEN IF n[1] = "b" THEN Good(n[2] = "true") ELSE Bad
  ELSE IF n[1] = "s" THEN ReadText(n[3], ty) ELSE Bad

\* a nested object is present: set its flag; an instant in it that is not
\* given is no instant
Present(st, row) ==
  FoldLeft(LAMBDA a, r : IF r.k = "A" /\ r.ty = "time" THEN [a EXCEPT !.v[r.f] = NoInstant] ELSE a,
           IF row.p = "" \/ row.soft THEN st ELSE [st EXCEPT !.v[row.p] = TRUE], row.rows)

\* st = [ok, v]
RECURSIVE JReadRows(_, _, _)
JReadRow(st, node, row) ==
  IF row.j = "" THEN st
  ELSE
  LET n == Member(node, row.j)
  IN  IF n[1] \in {"null", "e", "oe"} THEN st
      ELSE CASE row.k \in {"A", "C"} ->
             LET r == JRead(n, row.ty)
             IN  IF ~r.ok THEN [st EXCEPT !.ok = FALSE]
                 ELSE IF row.p = "" THEN [st EXCEPT !.v[row.f] = r.v]
                 ELSE [st EXCEPT !.v[row.f] = r.v, !.v[row.p] = TRUE]
        [] row.k = "O" ->
             IF n[1] # "o" THEN [st EXCEPT !.ok = FALSE]
             ELSE JReadRows(n, row.rows, Present(st, row))
        [] row.k = "L" ->
             IF n[1] # "a" THEN [st EXCEPT !.ok = FALSE]
             ELSE LET rs == FoldLeft(LAMBDA a, x :
                               Append(a, IF x[1] = "null" THEN Good(row.d)
                                         ELSE IF x[1] # "o" THEN Bad
                                         ELSE JReadRows(x, row.rows, Good(row.d))),
                             <<>>, n[4])
                  IN  [ok |-> st.ok /\ \A i \in 1..Len(rs) : rs[i].ok,
                       v |-> [st.v EXCEPT ![row.f] = FoldLeft(LAMBDA a, r : Append(a, r.v), <<>>, rs)]]

JReadRows(node, rows, st) == FoldLeft(LAMBDA a, row : JReadRow(a, node, row), st, rows)

\* a discriminator
JType(node, key, dflt) ==              \* [ok, v]
  LET n == Member(node, key)
  IN  IF n[1] = "null" THEN Good(dflt)
      ELSE IF n[1] = "n" THEN ReadNumber(StrBytes(n[2]), "w32") ELSE Bad

SmallOf(w) == IF w[1] > 0 THEN -1 ELSE w[2]

ReadJsonCommand(n) ==
  IF n[1] = "null" THEN Good(NoCommand)
  ELSE IF n[1] # "o" THEN Bad
  ELSE LET t == JType(n, "type", Zero)
       IN  IF ~t.ok THEN Bad
           ELSE LET k == CmdKind(SmallOf(t.v))
                IN  JReadRows(n, CommandDoc[k].rows, Good(CmdSyntax[k].init))

ReadJsonDescriptor(n) ==
  IF n[1] # "o" THEN Bad
  ELSE LET t == JType(n, "type", Zero)
           id == JType(n, "identifier", CUEI)
       IN  IF ~t.ok \/ ~id.ok THEN Bad
           ELSE LET k == DescKind(id.v, SmallOf(t.v))
                    d0 == DescSyntax[k].init
                IN  JReadRows(n, DescriptorDoc[k].rows,
                      Good(IF k = "private_descriptor" THEN [d0 EXCEPT !.identifier = id.v] ELSE d0))

Empty == [sap |-> 3, proto |-> 0, alg |-> 0, pts |-> Zero, cw |-> 0, tier |-> 0,
          preroll |-> Zero, cmd |-> NoCommand, descs |-> <<>>]

SignalOfJson(node) ==
  IF node[1] # "o" THEN Bad
  ELSE
  LET ep == Member(node, "encryptedPacket")
      h0 == JReadRows(node, SectionDoc, Good(Empty))
      h == IF ep[1] = "null" THEN h0
           ELSE IF ep[1] # "o" THEN Bad
           ELSE JReadRows(ep, EncryptedPacketDoc, h0)
      c == ReadJsonCommand(Member(node, "spliceCommand"))
      dn == Member(node, "spliceDescriptors")
      ds == IF dn[1] # "a" THEN <<>>
            ELSE FoldLeft(LAMBDA a, x : Append(a, ReadJsonDescriptor(x)), <<>>, dn[4])
  IN  IF ~h.ok \/ ~c.ok \/ dn[1] \notin {"a", "null"} \/ (\E i \in 1..Len(ds) : ~ds[i].ok) THEN Bad
      ELSE Good([h.v EXCEPT !.cmd = c.v,
                            !.descs = FoldLeft(LAMBDA a, r : Append(a, r.v), <<>>, ds)])

----------------------------------------------------------------------------
(* XML *)

TrueTexts == {StrBytes("1"), StrBytes("t"), StrBytes("T"), StrBytes("TRUE"), StrBytes("true"), StrBytes("True")}
FalseTexts == {StrBytes("0"), StrBytes("f"), StrBytes("F"), StrBytes("FALSE"), StrBytes("false"), StrBytes("False")}

XRead(t, ty) ==
  IF ty \in NumberTypes THEN IF t = <<>> THEN ReadNumber(<<48>>, ty) ELSE ReadNumber(Trim(t), ty)
  ELSE IF ty = "b" THEN
    IF t = <<>> \/ Trim(t) \in FalseTexts THEN Good(FALSE)
    ELSE IF Trim(t) \in TrueTexts THEN Good(TRUE) ELSE Bad
  ELSE IF ty = "token" THEN Good(Trim(t))
  ELSE ReadText(t, ty)

AttrOf(el, name) ==                    \* <<>> or <<text>>
  FoldLeft(LAMBDA a, kv : IF kv[1] = name THEN <<kv[2]>> ELSE a, <<>>, el[3])
KidsOf(el, name) == SelectSeq(el[4], LAMBDA x : x[1] = name)

RECURSIVE XReadRows(_, _, _)
XReadRow(st, el, row) ==
  CASE row.k = "A" ->
         LET at == AttrOf(el, row.x)
         IN  IF at = <<>> THEN st
             ELSE LET r == XRead(at[1], row.ty)
                  IN  IF ~r.ok THEN [st EXCEPT !.ok = FALSE]
                      ELSE IF row.p = "" THEN [st EXCEPT !.v[row.f] = r.v]
                      ELSE [st EXCEPT !.v[row.f] = r.v, !.v[row.p] = TRUE]
    [] row.k = "C" ->
         LET r == XRead(el[2], row.ty)
         IN  IF ~r.ok THEN [st EXCEPT !.ok = FALSE] ELSE [st EXCEPT !.v[row.f] = r.v]
    [] row.k = "O" ->
         LET ks == KidsOf(el, row.x)
         IN  IF ks = <<>> THEN st
             ELSE XReadRows(ks[1], row.rows, Present(st, row))
    [] row.k = "L" ->
         LET rs == FoldLeft(LAMBDA a, x : Append(a, XReadRows(x, row.rows, Good(row.d))),
                            <<>>, KidsOf(el, row.x))
         IN  [ok |-> st.ok /\ \A i \in 1..Len(rs) : rs[i].ok,
              v |-> [st.v EXCEPT ![row.f] = FoldLeft(LAMBDA a, r : Append(a, r.v), <<>>, rs)]]

XReadRows(el, rows, st) == FoldLeft(LAMBDA a, row : XReadRow(a, el, row), st, rows)

KindOf(doc, kinds, name) ==            \* "" if there is none
  FoldLeft(LAMBDA a, k : IF doc[k].x = name THEN k ELSE a, "", kinds)

SignalOfXml(root) ==
  LET ep == KidsOf(root, "EncryptedPacket")
      h0 == XReadRows(root, SectionDoc, Good(Empty))
      h == IF ep = <<>> THEN h0 ELSE XReadRows(ep[1], EncryptedPacketDoc, h0)
      rest == SelectSeq(root[4], LAMBDA x : x[1] # "EncryptedPacket")
      st == FoldLeft(LAMBDA a, x :
               LET ck == KindOf(CommandDoc, CommandKinds, x[1])
                   dk == KindOf(DescriptorDoc, DescriptorKinds, x[1])
                   r == IF ck # "" THEN XReadRows(x, CommandDoc[ck].rows, Good(CmdSyntax[ck].init))
                        ELSE IF dk # "" THEN XReadRows(x, DescriptorDoc[dk].rows, Good(DescSyntax[dk].init))
                        ELSE Bad
               IN  IF ~r.ok THEN [a EXCEPT !.ok = FALSE]
                   ELSE IF ck # "" THEN [a EXCEPT !.c = r.v]
                   ELSE [a EXCEPT !.d = Append(a.d, r.v)],
             [ok |-> TRUE, c |-> NoCommand, d |-> <<>>], rest)
  IN  IF ~h.ok \/ ~st.ok THEN Bad
      ELSE Good([h.v EXCEPT !.cmd = st.c, !.descs = st.d])
=============================================================================
