------------------------------- MODULE Machine ------------------------------
(***************************************************************************)
(* The library as a machine: values that refer to memory, and the calls    *)
(* that change them.  Every history of Depth calls is explored, on the     *)
(* design that the library claims to have and on designs it must not have: *)
(*   good       calls replace the receiver and hand out fresh memory       *)
(*   merge      a reader keeps what its input does not mention             *)
(*   aliasin    a reader keeps a reference to the caller's buffer          *)
(*   aliasout   a writer hands out memory of the value                     *)
(*   cache      a writer remembers what it wrote                           *)
(*   scratch    all writers share one buffer                               *)
(*   reuse      a reader reuses the memory of the receiver's last value    *)
(* Every history of the good design is a session for the driver.           *)
(*                                                                         *)
(* A value is [c, l, p]: its command (0: none), how many descriptors it    *)
(* has, and the cell that holds the content of its private bytes (0: none).*)
(***************************************************************************)
EXTENDS Gen

Design == IOEnv.DESIGN
Depth == atoi(IOEnv.DEPTH)
\* "change": calls that change values; "observe": observers; "both"
Alphabet == IOEnv.ALPHABET

----------------------------------------------------------------------------
(* The inputs.  Abstract content: [c, l, x] with x the private content     *)

\* M: a document that says next to nothing
Contents == [A |-> [c |-> 1, l |-> 2, x |-> 1], B |-> [c |-> 2, l |-> 0, x |-> 0], E |-> [c |-> 3, l |-> 1, x |-> 3],
             M |-> [c |-> 4, l |-> 0, x |-> 0], cutA |-> [c |-> 1, l |-> 1, x |-> 1]]

\* what stands for them in the sessions, in a few sizes
ValA(s) ==
  LET f == Frame([pat |-> "seq", ones |-> TRUE], 0).v
      p == DescSyntax["private_descriptor"].init
      d(n) == Descriptor([pat |-> "seq", ones |-> TRUE], "segmentation_descriptor", (n * 7919) % 110592).v
      private(n) == [i \in 1..n |-> (i * 7) % 256]
  IN  [f EXCEPT !.cmd = [PrivateCommand0 EXCEPT !.identifier = <<65, 4342338>>, !.bytes = private(<<80, 5, 400>>[(s % 3) + 1])],
                !.descs = <<[p EXCEPT !.tag = 7, !.identifier = <<88, 5855577>>, !.bytes = private(<<3, 70, 251>>[(s % 3) + 1])],
                            [d(s + 3) EXCEPT !.cancel = FALSE, !.program_splice = FALSE,
                                             !.components = <<[tag |-> 3, pts_offset |-> <<1, 77>>]>>]>>]
ValM == [Empty EXCEPT !.cmd = SpliceNull0]
ValB(s) ==
  LET f == Frame([pat |-> "top", ones |-> TRUE], 0).v
  IN  [f EXCEPT !.descs = <<>>,
                !.cmd = Command([pat |-> "seq", ones |-> TRUE], "splice_insert", ((s * 131) + 36) % CommandSize("splice_insert")).v]
ValE(s) ==
  LET f == Frame([pat |-> "seq", ones |-> TRUE], 0).v
  IN  [f EXCEPT !.cmd = Command([pat |-> "seq", ones |-> TRUE], "splice_schedule", ((s * 977) + 14) % CommandSize("splice_schedule")).v,
                !.descs = <<Descriptor([pat |-> "seq", ones |-> TRUE], "audio_descriptor", 1).v>>]

----------------------------------------------------------------------------
(* The calls.  An operation is [op, s, x]: slot s, input x.                *)

O3(op, s, x) == [op |-> op, s |-> s, x |-> x]
Changing ==
  {O3("decode", 1, x) : x \in {"A", "B", "cutA"}} \cup {O3("text", 1, x) : x \in {"cutA", "bad"}}
    \cup {O3("unjson", 1, x) : x \in {"A", "M", "bad"}} \cup {O3("unxml", 1, x) : x \in {"B", "E", "M"}}
    \cup {O3("edit", 1, "B"), O3("smash", 1, ""), O3("copy", 2, ""), O3("scribble", 1, ""), O3("scribbleout", 1, ""),
          O3("encode", 1, ""), O3("json", 1, ""), O3("bytes", 2, "")}
Observing ==
  {O3(o, 1, "") : o \in {"encode", "b64", "hex", "json", "xml", "table", "dur", "derived", "scribbleout"}}
    \cup {O3("encode", 2, ""), O3("json", 2, "")}
Calls == (IF Alphabet \in {"change", "both"} THEN Changing ELSE {})
           \cup (IF Alphabet \in {"observe", "both"} THEN Observing ELSE {})

----------------------------------------------------------------------------
(* The machine *)

VARIABLES
  hist,       \* the calls so far
  slot,       \* what the slots hold: [c, l, p, cached]
  mem,        \* the content of the cells
  inbuf,      \* the cell of the last input
  out,        \* the cell of the last output (0: none), with what it must say
  said,       \* [cell, content] of the outputs the caller still has
  want,       \* the content that every slot must have: [c, l, x]
  right       \* the last output said what it had to

vars == <<hist, slot, mem, inbuf, out, said, want, right>>

Blank == [c |-> 0, l |-> 0, p |-> 0, cached |-> <<>>]
Nothing == [c |-> 0, l |-> 0, x |-> 0]
Scribbled == 99
New == Len(mem) + 1
Content(v, m) == [c |-> v.c, l |-> v.l, x |-> IF v.p = 0 THEN 0 ELSE m[v.p]]

Init ==
  /\ hist = <<>>
  \* slot 1 was decoded from A, slot 2 from E
  /\ mem = IF Design = "aliasin" THEN <<1, 3>> ELSE <<1, 3, 1, 3>>
  /\ slot = IF Design = "aliasin" THEN <<[Blank EXCEPT !.c = 1, !.l = 2, !.p = 1], [Blank EXCEPT !.c = 3, !.l = 1, !.p = 2]>>
            ELSE <<[Blank EXCEPT !.c = 1, !.l = 2, !.p = 3], [Blank EXCEPT !.c = 3, !.l = 1, !.p = 4]>>
  /\ inbuf = 2 /\ out = 0 /\ said = {} /\ right = TRUE
  /\ want = <<Contents.A, Contents.E>>

\* a reader of an input with content y into slot s
Read(s, y) ==
  LET b == New                         \* the caller's buffer
      reuse == Design = "reuse" /\ slot[s].p # 0 /\ y.x # 0
      p == IF y.x = 0 THEN (IF Design = "merge" THEN slot[s].p ELSE 0)
           ELSE IF Design = "aliasin" THEN b
           ELSE IF reuse THEN slot[s].p ELSE b + 1
      m == mem \o <<y.x, y.x>>
  IN  /\ mem' = IF reuse THEN [m EXCEPT ![p] = y.x] ELSE m
      /\ inbuf' = b
      /\ slot' = [slot EXCEPT ![s] = [c |-> y.c, l |-> IF Design = "merge" /\ y.l = 0 THEN slot[s].l ELSE y.l, p |-> p,
                                      cached |-> <<>>]]
      /\ want' = [want EXCEPT ![s] = y]
      /\ UNCHANGED <<out, said, right>>

\* text that is not one gives an empty signal; a failed unmarshal leaves the
\* receiver as it likes, this one empties it
Fail(s) ==
  /\ slot' = [slot EXCEPT ![s] = Blank] /\ want' = [want EXCEPT ![s] = Nothing]
  /\ UNCHANGED <<mem, inbuf, out, said, right>>

\* a writer: what it says is the content of the slot, in a cell as a number
Code(y) == (y.c * 100) + (y.l * 10) + y.x
Write(s) ==
  LET now == Code(Content(slot[s], mem))
      cached == Design = "cache" /\ slot[s].cached # <<>>
      says == IF cached THEN slot[s].cached[1] ELSE now
      alias == Design = "aliasout" /\ slot[s].p # 0
      shared == Design = "scratch" /\ out # 0
      cell == IF alias THEN slot[s].p ELSE IF shared THEN out ELSE New
  IN  /\ mem' = IF alias THEN mem ELSE IF shared THEN [mem EXCEPT ![out] = says] ELSE Append(mem, says)
      /\ out' = cell
      /\ right' = (alias \/ says = Code(want[s]))
      /\ said' = said \cup {<<cell, IF alias THEN mem[cell] ELSE says>>}
      /\ slot' = [slot EXCEPT ![s].cached = <<says>>]
      /\ UNCHANGED <<inbuf, want>>

Step(o) ==
  CASE o.op = "decode" -> Read(o.s, Contents[o.x])
    [] o.op \in {"text", "unjson", "unxml"} -> IF o.x = "bad" THEN Fail(o.s) ELSE Read(o.s, Contents[o.x])
    [] o.op = "edit" ->                \* fields are assigned; nothing is told to the library
         /\ slot' = [slot EXCEPT ![o.s] = [@ EXCEPT !.c = 2, !.l = 0, !.p = 0]]
         /\ want' = [want EXCEPT ![o.s] = Contents.B]
         /\ UNCHANGED <<mem, inbuf, out, said, right>>
    [] o.op = "smash" ->               \* the private bytes are changed in place, unless shared with a copy
         LET p == slot[o.s].p
             ok == p # 0 /\ slot[3 - o.s].p # p
         IN  /\ mem' = IF ok THEN [mem EXCEPT ![p] = 7] ELSE mem
             /\ want' = IF ok THEN [want EXCEPT ![o.s].x = 7] ELSE want
             /\ UNCHANGED <<slot, inbuf, out, said, right>>
    [] o.op = "copy" ->                \* slot 2 := slot 1
         /\ slot' = [slot EXCEPT ![2] = slot[1]] /\ want' = [want EXCEPT ![2] = want[1]]
         /\ UNCHANGED <<mem, inbuf, out, said, right>>
    [] o.op = "scribble" ->            \* the caller overwrites his input
         /\ mem' = [mem EXCEPT ![inbuf] = Scribbled]
         /\ UNCHANGED <<slot, inbuf, out, said, want, right>>
    [] o.op = "scribbleout" ->         \* and the last output
         /\ mem' = IF out = 0 THEN mem ELSE [mem EXCEPT ![out] = Scribbled]
         /\ said' = {y \in said : y[1] # out}
         /\ UNCHANGED <<slot, inbuf, out, want, right>>
    [] o.op \in {"encode", "b64", "hex", "json", "xml"} -> Write(o.s)
    [] OTHER -> UNCHANGED <<slot, mem, inbuf, out, said, want, right>>

\* the values hold what they must
Faithful == \A s \in 1..2 : Content(slot[s], mem) = want[s]
\* writers say what the value holds
Truthful == right
\* what a caller was given stays as it was
Lasting == \A y \in said : mem[y[1]] = y[2]

----------------------------------------------------------------------------
(* Sessions *)

BytesOf(v) == EncodeSignal(v @@ [stuffing |-> <<>>]).b
CutOf(b) == SubSeq(b, 1, Len(b) - 9)   \* within the last descriptor
MinimalJson == JObj(<<<<"spliceCommand", JObj(<<<<"type", JNum("0")>>>>)>>>>)
MinimalXml == <<"SpliceInfoSection", <<>>, <<>>, <<<<"SpliceNull", <<>>, <<>>, <<>>>>>>>>
\* [v, b, j, x] of the inputs
Inputs(w) == [A |-> ValA(Seed + w), B |-> ValB(Seed + w), E |-> ValE(Seed + w), M |-> ValM]
\* as a text, every other one in hex
BadTexts == <<StrBytes("/DA!"), StrBytes("0xFC30zz")>>
Text(o, in, n) ==
  LET via == IF n % 2 = 0 THEN "b64" ELSE "hex"
  IN  IF o.x = "bad" THEN [Op("text" \o via, o.s, 0) EXCEPT !.b = BadTexts[(n % 2) + 1]]
      ELSE [Op("decode" \o via, o.s, 0) EXCEPT !.b = CutOf(in.A.b), !.n = n % 4]
\* n: a number for variety
Real(o, in, n) ==
  CASE o.op = "decode" -> Dec(o.s, IF o.x = "cutA" THEN CutOf(in.A.b) ELSE in[o.x].b)
    [] o.op = "text" -> Text(o, in, n)
    [] o.op = "unjson" /\ o.x = "M" -> DocOp("unjson", o.s, MinimalJson)
    [] o.op = "unxml" /\ o.x = "M" -> DocOp("unxml", o.s, MinimalXml)
    [] o.op = "unjson" -> DocOp("unjson", o.s, IF o.x = "bad" THEN JObj(<<<<"sapType", JStr(<<65>>)>>>>) ELSE in[o.x].j)
    [] o.op = "unxml" -> DocOp("unxml", o.s, in[o.x].x)
    [] o.op = "edit" -> [Op("edit", o.s, 0) EXCEPT !.v = in[o.x].v]
    [] o.op = "copy" -> Op("copy", 2, 1)
    [] o.op = "bytes" -> [Op("bytes", o.s, 0) EXCEPT !.b = <<48, 57, 97, 98>>]
    [] OTHER -> Op(o.op, o.s, 0)

Prelude(in) == <<Dec(1, in.A.b), Dec(2, in.E.b)>>
Postlude == <<Op("encode", 1, 0), Op("json", 1, 0), Op("encode", 2, 0), Op("xml", 2, 0), Op("held", 1, 0)>>
SessionOf(h, in, n) == [n |-> 2, ops |-> Prelude(in) \o [i \in 1..Len(h) |-> Real(h[i], in, n + (n \div 2))] \o Postlude]

\* all histories that continue this one by one call
WriteSessions(h) ==
  \E world \in {[w \in 1..3 |-> LET in == Inputs(w)
                                IN  [n \in {"A", "B", "E", "M"} |-> [v |-> in[n], b |-> BytesOf(in[n]), j |-> Plain(JsonOf(in[n])),
                                                                    x |-> XPlain(XmlOf(in[n]))]]]} :
  \E os \in {SetToSeq(Calls)} :
    ndJsonSerialize(IOEnv.OUT_DIR \o "/" \o "h" \o ToString(Len(h)) \o
                      FoldLeft(LAMBDA a, o : a \o "-" \o o.op \o ToString(o.s) \o o.x, "", h) \o ".ndjson",
                    [i \in 1..Len(os) |-> LET n == i + FoldLeft(LAMBDA a, o : (a * 3) + Len(o.op) + Len(o.x) + o.s, 0, h)
                                          IN  SessionOf(Append(h, os[i]), world[(n % 3) + 1], n)])

Next ==
  /\ Len(hist) < Depth
  /\ Design # "good" \/ Len(hist) < Depth - 1 \/ WriteSessions(hist)
  /\ \E o \in Calls : hist' = Append(hist, o) /\ Step(o)

Spec == Init /\ [][Next]_vars
=============================================================================
