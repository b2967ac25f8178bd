------------------------------ MODULE Foreign -------------------------------
(***************************************************************************)
(* Structures that are not the standard's own: commands of every type,     *)
(* descriptors of every tag with identifiers like and unlike the           *)
(* standard's, with contents of many lengths, between all neighbours.      *)
(*                                                                         *)
(* Rule: how a reader tells them from its own: "good", or "tagonly" (does  *)
(* not look at the identifier), "low" (compares half of the identifier),   *)
(* "skip" (drops what it does not know).                                   *)
(***************************************************************************)
EXTENDS Gen

Rule == IOEnv.RULE
Step == atoi(IOEnv.STEP)               \* every how many combinations

\* identifiers: CUEI is <<67, 5588297>>
Ids == <<CUEI, <<67, 5588296>>, <<67, 5588298>>, <<66, 5588297>>, <<67 + 32, 5588297>>, <<67, 8388607>>, Zero, <<255, 16777215>>, <<0, 1>>, <<128, 0>>,
         <<1, 22101>>, <<69, 5588297>> >>
NIds == 12
Lens == <<0, 1, 2, 3, 4, 5, 7, 8, 13, 32, 100, 251>>
NLens == 12
\* what a content looks like: like other structures, or like nothing
Likeness(n, x) ==
  CASE x % 5 = 0 -> [k \in 1..n |-> 0]
    [] x % 5 = 1 -> [k \in 1..n |-> 255]
    [] x % 5 = 2 -> SubSeq(<<2, 4, 67, 85, 69, 73, 0, 4, 67, 85, 69, 73>> \o [k \in 1..n |-> (k * 7) % 256], 1, n)
    [] x % 5 = 3 -> [k \in 1..n |-> ((k * 37) + x + Seed) % 256]
    [] x % 5 = 4 -> [k \in 1..n |-> 32 + (k % 90)]

\* descriptor with this tag, identifier and content
Desc(tag, id, b) ==
  [v |-> [DescSyntax["private_descriptor"].init EXCEPT !.tag = tag, !.identifier = id, !.bytes = b],
   b |-> <<tag, Len(b) + 4>> \o U32ToBytes(id) \o b, s |-> FALSE]
OwnTags == {DescSyntax[DKinds[k]].code : k \in 1..5}
IsOwn(tag, id) == id = CUEI /\ tag \in OwnTags
Pat(n) == [pat |-> IF n % 2 = 0 THEN "seq" ELSE "top", ones |-> TRUE]
Neighbour(k, x) == LET d == DKinds[(k % 5) + 1] IN Descriptor(Pat(x), d, ((x * 7919) + (Seed * 31)) % DescriptorSize(d))

\* combination x: a foreign descriptor of a tag between two neighbours
Combo(tag, x) ==
  LET id == Ids[((x + tag) % NIds) + 1]
      n == Lens[(((x \div NIds) + (tag \div 3)) % NLens) + 1]
      d == IF IsOwn(tag, id) THEN Desc(tag, Ids[2], Likeness(n, x)) ELSE Desc(tag, id, Likeness(n, x))
      a == Neighbour(x + tag, x)
      z == Neighbour((x \div 5) + (2 * tag), x + 1)
  IN  [a |-> a, d |-> d, z |-> z]
SectionIn(c) == SectionOf(Pat(1), NullCommand, <<c.a, c.d, c.z>>, <<>>, "plain")

\* commands of unknown types
KnownTypes == {CmdSyntax[Kinds[k]].code : k \in 1..5}
CmdNo(type, x) ==
  LET id == Ids[((x + type) % NIds) + 1]
      b == Likeness(Lens[(((x \div 3) + type) % (NLens - 1)) + 1], x)
  IN  [v |-> [PrivateCommand0 EXCEPT !.identifier = id, !.bytes = b], type |-> type, b |-> U32ToBytes(id) \o b]
CommandIn(type, x) == SectionOf(Pat(1), CmdNo(type, x), <<Neighbour(x, x)>>, <<>>, "plain")

Session(b) == [n |-> 4, ops |-> <<Dec(1, b), Op("encode", 1, 0), Op("decode", 2, 1), Op("encode", 2, 0), Op("table", 1, 0), Op("json", 1, 0), Op("unjson", 3, 1),
                                  Op("encode", 3, 0), Op("xml", 2, 0), Op("unxml", 4, 2), Op("encode", 4, 0), Op("derived", 4, 0)>>]

VARIABLES cur
Init == cur \in {[k |-> "tag", t |-> t] : t \in 0..255} \cup {[k |-> "type", t |-> t] : t \in (0..255) \ KnownTypes}
Chosen(t, n) == {x \in 0..(n - 1) : (x + (t * 5) + Seed) % Step = 0}
File(c) == IOEnv.OUT_DIR \o "/" \o c.k \o ToString(c.t) \o ".ndjson"
Next ==
  \/ /\ cur.k = "tag"
     /\ \E q \in {SetToSeq(Chosen(cur.t, NIds * NLens))} : \E cs \in {[i \in 1..Len(q) |-> Combo(cur.t, q[i])]} :
        /\ ndJsonSerialize(File(cur), [i \in 1..Len(q) |-> Session(SectionIn(cs[i]).b)])
        /\ cur' \in {[k |-> "desc", c |-> cs[i]] : i \in 1..Len(q)}
  \/ /\ cur.k = "type"
     /\ \E q \in {SetToSeq(Chosen(cur.t, 60))} :
        /\ ndJsonSerialize(File(cur), [i \in 1..Len(q) |-> Session(CommandIn(cur.t, q[i]).b)])
        /\ cur' \in {[k |-> "cmd", t |-> cur.t, x |-> q[i]] : i \in 1..Len(q)}

----------------------------------------------------------------------------
\* the kind that a reader by the rule makes of a tag and identifier
Half(id) == id[2] % 65536
TakenFor(id, tag) ==
  CASE Rule = "tagonly" -> DescKind(CUEI, tag)
    [] Rule = "low" -> IF Half(id) = Half(CUEI) THEN DescKind(CUEI, tag) ELSE DescKind(id, tag)
    [] OTHER -> DescKind(id, tag)

AtDesc == cur.k = "desc"
AtCmd == cur.k = "cmd"
\* foreign structures are private
Foreignness == AtDesc => TakenFor(cur.c.d.v.identifier, cur.c.d.v.tag) = "private_descriptor"
\* the section reads as its parts, with everything kept
KeptWhole == AtDesc =>
  LET x == SectionIn(cur.c)
      d == DecodeSection(x.b)
      descs == IF Rule = "skip" THEN SelectSeq(d.sig.descs, LAMBDA y : y.kind # "private_descriptor") ELSE d.sig.descs
  IN  d.errs = {"none"} /\ descs = <<cur.c.a.v, cur.c.d.v, cur.c.z.v>>
\* it says the same without it, apart from it
Aside == AtDesc =>
  LET w == SectionOf(Pat(1), NullCommand, <<cur.c.a, cur.c.z>>, <<>>, "plain")
      d == DecodeSection(w.b).sig
      f == DecodeSection(SectionIn(cur.c).b).sig
  IN  f = [d EXCEPT !.descs = <<@[1], cur.c.d.v, @[2]>>]
\* and is written as it was, whatever way it took
Back == AtDesc =>
  LET x == SectionIn(cur.c)
      same(s) == LET e == EncodeSignal(s @@ [stuffing |-> <<>>]) IN e.k = "ok" /\ (x.canon => e.b = x.b)
      j == SignalOfJson(JsonOf(x.v))
      m == SignalOfXml(XmlOf(x.v))
  IN  /\ same(DecodeSection(x.b).sig)
      /\ JsonOk(x.v) => j.ok /\ same(j.v)
      /\ XmlOk(x.v) /\ XmlTokens(x.v) => m.ok /\ same(m.v)
Commands == AtCmd =>
  LET d == DecodeSection(CommandIn(cur.t, cur.x).b)
  IN  d.errs = {"none"} /\ d.sig.cmd = CmdNo(cur.t, cur.x).v /\ Len(d.sig.descs) = 1 /\ d.sig.descs[1] = Neighbour(cur.x, cur.x).v
=============================================================================
