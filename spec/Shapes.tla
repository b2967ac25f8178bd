------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Theorems about the shapes of sections (see Gen): how Parse, Emit and    *)
(* the documents relate to the generator and so to each other.  The model  *)
(* writes down sessions that show whether the library agrees.              *)
(***************************************************************************)
EXTENDS Gen

----------------------------------------------------------------------------
(* Theorems about the specification itself *)

\* Parse reads what Gen wrote, whatever the reserved bits
ParseGen(x) == LET d == DecodeSection(x.b) IN
  d.errs = {"none"} /\ d.sig = x.v /\ d.stuffing = x.st
\* Emit writes the canonical ones, and what it makes of the others means the same
EmitGen(x) == LET e == EncodeSignal(x.v @@ [stuffing |-> x.st]) IN
  /\ e.k = "ok"
  /\ x.canon => e.b = x.b
  /\ LET d == DecodeSection(e.b) IN d.errs = {"none"} /\ d.sig = x.v /\ d.stuffing = x.st
\* documents say the same
JsonGen(x) == LET r == SignalOfJson(JsonOf(x.v)) IN ~JsonOk(x.v) \/ (r.ok /\ r.v = x.v)
XmlGen(x) == LET r == SignalOfXml(XmlOf(x.v)) IN ~XmlOk(x.v) \/ ~XmlTokens(x.v) \/ (r.ok /\ r.v = x.v)

----------------------------------------------------------------------------
(* Sessions *)

\* the signal without its command, once more
Bare(x) == IF x.v.descs = <<>> THEN Put(1, [x.v EXCEPT !.cmd = [kind |-> "none"]]) ELSE Put(1, x.v)

\* Dec: bytes of the specification; Put: values of the specification
Ops(x) ==
  CASE IOEnv.OPS = "decode" -> <<Dec(1, x.b), Op("encode", 1, 0), Op("decode", 2, 1)>>
    [] IOEnv.OPS = "encode" -> <<Put(1, x.v), Op("encode", 1, 0), Op("decode", 2, 1), Op("encode", 2, 0)>>
    [] IOEnv.OPS = "json" -> <<Put(1, x.v), Op("encode", 1, 0), Op("json", 1, 0), Op("unjson", 2, 1), Op("encode", 2, 0),
                               Bare(x), Op("json", 1, 0), Op("unjson", 2, 1)>>
    [] IOEnv.OPS = "xml" -> <<Put(1, x.v), Op("encode", 1, 0), Op("xml", 1, 0), Op("unxml", 2, 1), Op("encode", 2, 0),
                              Bare(x), Op("xml", 1, 0), Op("unxml", 2, 1)>>
    [] IOEnv.OPS = "doc" -> <<Put(1, x.v), Op("json", 1, 0), Op("xml", 1, 0), Bare(x), Op("json", 1, 0), Op("xml", 1, 0)>>
    [] IOEnv.OPS = "table" -> <<Put(1, x.v), Op("table", 1, 0), Dec(2, x.b), Op("table", 2, 0), Bare(x), Op("table", 1, 0)>>
    [] IOEnv.OPS = "derived" -> <<Put(1, x.v), Op("derived", 1, 0), Op("dur", 1, 0), Dec(2, x.b), Op("derived", 2, 0),
                                  Bare(x), Op("derived", 1, 0), Op("dur", 1, 0)>>
    [] IOEnv.OPS = "pure" -> <<Dec(1, x.b), Op("all", 1, 0), Op("all", 1, 0), Op("held", 1, 0)>>
    [] IOEnv.OPS = "text" -> <<Dec(1, x.b), [Op("decodeb64", 2, 0) EXCEPT !.b = x.b], [Op("decodehex", 2, 0) EXCEPT !.b = x.b, !.n = 3],
                               Op("encode", 1, 0), Op("b64", 1, 0), Op("hex", 1, 0)>>

Sessions(xs) == [i \in 1..Len(xs) |-> [n |-> 2, ops |-> Ops(xs[i])]]

(***************************************************************************)
(* The state machine: a kind of section, a piece of the sections of this   *)
(* kind (whose sessions are written to a file), a section.                 *)
(***************************************************************************)
VARIABLES cur

Piece == 40
Job(p, name) == [k |-> "job", p |-> p, name |-> name]
Init == cur \in {Job(p, name) : p \in Patterns, name \in Families}

Divide ==
  /\ cur.k = "job"
  /\ \E ns \in {Kept(cur.p, SizeOf(cur.name))} :
       \E i \in 1..((Len(ns) + Piece - 1) \div Piece) :
         cur' = [k |-> "numbers", p |-> cur.p, name |-> cur.name, i |-> i,
                 ns |-> SubSeq(ns, ((i - 1) * Piece) + 1, IF i * Piece > Len(ns) THEN Len(ns) ELSE i * Piece)]
Build ==
  /\ cur.k = "numbers"
  /\ cur' = [k |-> "piece", p |-> cur.p, name |-> cur.name, i |-> cur.i,
             xs |-> SetToSeq({Shape(cur.p, cur.name, cur.ns[i]) : i \in 1..Len(cur.ns)})]
File(c) == IOEnv.OUT_DIR \o "/" \o c.name \o "-" \o c.p.pat \o ToString(c.p.ones) \o ToString(c.i) \o ".ndjson"
Pick ==
  /\ cur.k = "piece"
  /\ ndJsonSerialize(File(cur), Sessions(cur.xs))
  /\ \E i \in 1..Len(cur.xs) : cur' = [k |-> "section", x |-> cur.xs[i]]
Next == Divide \/ Build \/ Pick

AtSection == cur.k = "section"
ParseReadsGen == AtSection => ParseGen(cur.x)
EmitWritesGen == AtSection => EmitGen(cur.x)
JsonSaysGen == AtSection => JsonGen(cur.x)
XmlSaysGen == AtSection => XmlGen(cur.x)
=============================================================================
