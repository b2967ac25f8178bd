----------------------------- MODULE DocFaults ------------------------------
(***************************************************************************)
(* Edited documents.  For some signals of the generator: the document with *)
(* every single member, attribute, element or list element left out, moved,*)
(* nulled, replaced by values of every other type and by boundary values,  *)
(* and with unknown members, attributes and elements.  The invariants say  *)
(* what a reader must ignore and what it must refuse.                      *)
(***************************************************************************)
EXTENDS Gen

WithoutI(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

----------------------------------------------------------------------------
(* JSON.  An edit is [d, e]: what was done and the edited tree.            *)

Num(x) == JNum(x)
Numbers == <<"0", "1", "2", "3", "4", "5", "6", "7", "255", "256", "65536", "1129661769", "2147483648", "4294967295",
             "4294967296", "8589934592", "18446744073709551615">>
NoNumbers == <<"-1", "1.5", "1e2", "18446744073709551616", "-0">>
Strings == <<"", "abc", "00", "0", "zz", "ABcd01", "text", "base-64", "2020-02-29T23:59:59Z", "2021-02-29T00:00:00Z",
             "2106-02-07T06:28:16Z", "2020-06-30T12:30:00+02:00", "2020-01-01", "10.5240/0000-0000-0000-0000-0000-0">>

OtherTypes(n) ==
  SelectSeq(<<JNum("1"), JBool(TRUE), JBool(FALSE), JStr(<<49>>), JArr(<<>>), JObj(<<>>)>>, LAMBDA y : y[1] # n[1])

SameType(n) ==
  CASE n[1] = "n" -> [i \in 1..Len(Numbers) |-> <<"value", JNum(Numbers[i])>>]
                       \o [i \in 1..Len(NoNumbers) |-> <<"type", JNum(NoNumbers[i])>>]
    [] n[1] = "b" -> <<<<"value", JBool(n[2] # "true")>>>>
    [] n[1] = "s" -> [i \in 1..Len(Strings) |-> <<"value", JStr(StrBytes(Strings[i]))>>]
    [] OTHER -> <<>>

\* edits of the value n itself
JValueEdits(n) ==
  LET o == OtherTypes(n)
      s == SameType(n)
  IN  (IF n[1] = "null" THEN <<>> ELSE [i \in 1..Len(o) |-> [d |-> "type", e |-> o[i]]])
      \o [i \in 1..Len(s) |-> [d |-> s[i][1], e |-> s[i][2]]]

RECURSIVE JEdits(_)
JEdits(n) ==
  CASE n[1] = "o" ->
         LET kv == n[4]
             put(i, x) == JObj([kv EXCEPT ![i] = <<kv[i][1], x>>])
         IN  FlattenSeq([i \in 1..Len(kv) |->
               <<[d |-> "without", e |-> JObj(WithoutI(kv, i))],
                 [d |-> "null", e |-> put(i, JNull)],
                 [d |-> "same", e |-> JObj(Append(WithoutI(kv, i), kv[i]))]>>
               \o LET vs == JValueEdits(kv[i][2]) IN [k \in 1..Len(vs) |-> [d |-> vs[k].d, e |-> put(i, vs[k].e)]]
               \o LET es == JEdits(kv[i][2]) IN [k \in 1..Len(es) |-> [d |-> es[k].d, e |-> put(i, es[k].e)]]])
             \o <<[d |-> "same", e |-> JObj(Append(kv, <<"foo", JNum("1")>>))],
                  [d |-> "same", e |-> JObj(<<<<"x", JObj(<<<<"type", JStr(<<65>>)>>>>)>>>> \o kv)]>>
    [] n[1] = "a" ->
         LET xs == n[4]
             put(i, x) == JArr([xs EXCEPT ![i] = x])
         IN  FlattenSeq([i \in 1..Len(xs) |->
               <<[d |-> "element", e |-> JArr(WithoutI(xs, i))],
                 [d |-> "element", e |-> JArr(Append(xs, xs[i]))],
                 [d |-> "nullelement", e |-> put(i, JNull)],
                 [d |-> "type", e |-> put(i, JNum("1"))],
                 [d |-> "type", e |-> put(i, JArr(<<>>))]>>
               \o LET es == JEdits(xs[i]) IN [k \in 1..Len(es) |-> [d |-> es[k].d, e |-> put(i, es[k].e)]]])
    [] OTHER -> <<>>

----------------------------------------------------------------------------
(* XML *)

AttrTexts == <<"", "0", "1", "2", " 7 ", "255", "256", "4294967295", "4294967296", "18446744073709551615",
               "18446744073709551616", "-1", "+1", "0x10", "1 2", "true", "false", "TRUE", "t", "yes", "abc", "text", "base-64",
               "2020-02-29T23:59:59Z", "2021-02-29T00:00:00Z", "2106-02-07T06:28:16Z", "2020-06-30T12:30:00+02:00">>
CharTexts(name) ==
  IF name \in {"PrivateCommand", "PrivateDescriptor"} THEN <<"", "00", "ABcd01", "0", "xy", "0x00">>
  ELSE IF name = "SegmentationUpid" THEN <<"", " x ", "a b", "AAAA", "12", "10.5240/0000-0000-0000-0000-0000-0", "<&>\"'">>
  ELSE <<>>

RECURSIVE XEdits(_)
XEdits(n) ==
  LET at == n[3]
      ks == n[4]
      ts == CharTexts(n[1])
      with(a2) == <<n[1], n[2], a2, ks>>
      kids(k2) == <<n[1], n[2], at, k2>>
  IN  FlattenSeq([i \in 1..Len(at) |->
        <<[d |-> "without", e |-> with(WithoutI(at, i))],
          [d |-> "same", e |-> with(Append(WithoutI(at, i), at[i]))]>>
        \o [k \in 1..Len(AttrTexts) |-> [d |-> "value", e |-> with([at EXCEPT ![i] = <<at[i][1], StrBytes(AttrTexts[k])>>])]]])
      \o <<[d |-> "same", e |-> with(Append(at, <<"foo", <<49>>>>))]>>
      \o [k \in 1..Len(ts) |-> [d |-> "value", e |-> <<n[1], StrBytes(ts[k]), at, ks>>]]
      \o FlattenSeq([i \in 1..Len(ks) |->
           <<[d |-> "element", e |-> kids(WithoutI(ks, i))]>>
           \o LET es == XEdits(ks[i]) IN [k \in 1..Len(es) |-> [d |-> es[k].d, e |-> kids([ks EXCEPT ![i] = es[k].e])]]])
      \o (IF ks # <<>>
          THEN <<[d |-> IF n[1] = "SpliceInfoSection" THEN "stranger" ELSE "same",
                  e |-> kids(Append(ks, <<"Stranger", <<>>, <<<<"a", <<49>>>>>>, <<>>>>))]>>
          ELSE <<>>)

----------------------------------------------------------------------------
VARIABLES cur

Bases == atoi(IOEnv.BASES)
BasePattern(i) == [pat |-> IF i % 3 = 0 THEN "ones" ELSE "seq", ones |-> TRUE]
Init == cur \in {[k |-> "base", i |-> i, f |-> f] : i \in 1..Bases, f \in {"json", "xml"} \ {IOEnv.SKIP}}

\* the shape of rank r (from 1) by length among some shapes of a structure
Rich(shape(_), size, r) ==
  LET ns == {((n * (6 * (size \div 180) + 5)) + (Seed * 101)) % size : n \in 1..30}
      longest == SetToSortSeq({shape(n) : n \in ns}, LAMBDA a, c : Len(a.b) > Len(c.b))
  IN  longest[IF r > Len(longest) THEN Len(longest) ELSE r]
BaseSignal(p, i) ==
  LET ck == Kinds[(i % 6) + 1]
      d(k) == Rich(LAMBDA n : Descriptor(p, k, n), DescriptorSize(k), 1 + ((i + Seed) % 4)).v
      c == Rich(LAMBDA n : Command(p, ck, n), CommandSize(ck), 1 + ((i + Seed) % 3))
      f == Frame(p, (i + Seed) * 1687)
  IN  [f.v EXCEPT !.cmd = c.v, !.descs = <<d(DKinds[(i % 6) + 1]), d(DKinds[((i + 2) % 6) + 1])>>]

Piece == 20
Choose1 ==
  /\ cur.k = "base"
  /\ \E v \in {BaseSignal(BasePattern(cur.i), cur.i)} :
     \E doc \in {IF cur.f = "json" THEN Plain(JsonOf(v)) ELSE XPlain(XmlOf(v))} :
     \E es \in {IF cur.f = "json" THEN JEdits(doc) ELSE XEdits(doc)} :
     /\ \E i \in 1..((Len(es) + Piece - 1) \div Piece) :
          cur' = [k |-> "piece", i |-> cur.i, n |-> i, f |-> cur.f, v |-> v, doc |-> doc,
                  es |-> SubSeq(es, ((i - 1) * Piece) + 1, IF i * Piece > Len(es) THEN Len(es) ELSE i * Piece)]

SessionOf(c) ==
  [n |-> 2, ops |-> <<DocOp(Reading(c.f), 1, c.doc)>> \o
     FlattenSeq([i \in 1..Len(c.es) |-> <<DocOp(Reading(c.f), 1 + (i % 2), c.es[i].e)>>])]
File(c) == IOEnv.OUT_DIR \o "/" \o c.f \o ToString(c.i) \o "-" \o ToString(c.n) \o ".ndjson"
Choose2 ==
  /\ cur.k = "piece"
  /\ ndJsonSerialize(File(cur), <<SessionOf(cur)>>)
  /\ \E i \in 1..Len(cur.es) :
       cur' = [k |-> "edited", f |-> cur.f, v |-> cur.v, x |-> cur.es[i],
               r |-> IF cur.f = "json" THEN SignalOfJson(cur.es[i].e) ELSE SignalOfXml(cur.es[i].e)]
Next == Choose1 \/ Choose2

Edited(what) == cur.k = "edited" /\ cur.x.d \in what
\* order and strangers do not matter
Ignores == Edited({"same"}) => cur.r.ok /\ cur.r.v = cur.v
\* everything is optional
Optional == Edited({"without", "null", "element", "nullelement"}) =>
              cur.r.ok \/ (cur.f = "json" /\ cur.x.d = "nullelement")
\* a value of another type is refused
Refuses == Edited({"type", "stranger"}) => ~cur.r.ok
\* numbers that nobody can see (see Doc)
RECURSIVE JHasAny(_), XHasAny(_)
JHasAny(n) ==
  CASE n[1] = "?" -> TRUE
    [] n[1] = "a" -> \E i \in 1..Len(n[4]) : JHasAny(n[4][i])
    [] n[1] = "o" -> \E i \in 1..Len(n[4]) : JHasAny(n[4][i][2])
    [] OTHER -> FALSE
XHasAny(n) == (\E i \in 1..Len(n[3]) : n[3][i][2] = <<-1>>) \/ n[2] = <<-1>> \/ (\E i \in 1..Len(n[4]) : XHasAny(n[4][i]))
\* whatever is read can be written, and reading that changes nothing
Dispatch(v) == \A i \in 1..Len(v.descs) : DescDispatchOk(v.descs[i])
Stable ==
  (cur.k = "edited" /\ cur.r.ok) =>
    IF cur.f = "json"
    THEN (JsonOk(cur.r.v) /\ Dispatch(cur.r.v)) =>
           \E t \in {JsonOf(cur.r.v)} : JHasAny(t) \/ SignalOfJson(Plain(t)) = Good(cur.r.v)
    ELSE (XmlOk(cur.r.v) /\ XmlTokens(cur.r.v)) =>
           \E t \in {XmlOf(cur.r.v)} : XHasAny(t) \/ SignalOfXml(XPlain(t)) = Good(cur.r.v)
=============================================================================
