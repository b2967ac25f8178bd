-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* Invocations of the command line tools: every way to give a section or a *)
(* document to them, and every format.  The model is of the tools' part of *)
(* the work (which decoder, which rendering, which reader); the sessions   *)
(* run them next to the library.                                           *)
(*                                                                         *)
(* Rule: "good", or a wrong way of telling inputs apart: "always" (0x is   *)
(* not looked at), "case" (lower case letters only), "first" (a document   *)
(* starts with its first character), "angle" (anything else is JSON).      *)
(***************************************************************************)
EXTENDS Gen, Cli

Rule == IOEnv.RULE
Bases == atoi(IOEnv.BASES)

Pat == [pat |-> "seq", ones |-> TRUE]
SectionNo(n) == Frame(Pat, ((n + Seed) * 1687) + (Seed * 7919))
Harm(b, n) ==                          \* damage number n
  CASE n = 0 -> b
    [] n = 1 -> [b EXCEPT ![Len(b)] = (@ + 1) % 256]
    [] n = 2 -> SubSeq(b, 1, Len(b) - 3)
    [] n = 3 -> b \o <<0>>
    [] n = 4 -> [b EXCEPT ![13] = (@ + 5) % 256]
    [] n = 5 -> <<>>

UpperHex(b) == HexOf(b, HexU)
LowerHex(b) == HexOf(b, HexL)
\* spellings: [t, ok]; ok: a spelling of b that the tool must understand
Spelling(b, n) ==
  CASE n = 0 -> [t |-> B64Of(b), ok |-> TRUE]
    [] n = 1 -> [t |-> <<48, 120>> \o LowerHex(b), ok |-> TRUE]
    [] n = 2 -> [t |-> <<48, 120>> \o UpperHex(b), ok |-> TRUE]
    [] n = 3 -> [t |-> LowerHex(b), ok |-> FALSE]
    [] n = 4 -> [t |-> <<48, 88>> \o UpperHex(b), ok |-> FALSE]
    [] n = 5 -> [t |-> B64Of(b) \o <<61>>, ok |-> FALSE]
    [] n = 6 -> [t |-> <<48, 120>> \o LowerHex(b) \o <<48>>, ok |-> FALSE]
    [] n = 7 -> [t |-> <<32>> \o B64Of(b), ok |-> FALSE]
    [] n = 8 -> [t |-> <<48, 120>> \o B64Of(b), ok |-> FALSE]
    [] n = 9 -> [t |-> B64Of(b) \o <<10>>, ok |-> FALSE]
Formats == <<"", "text", "json", "xml", "JSON", "yaml", "x">>
\* runs: [b, s, f, eq]
RunNo(c, n) == LET b == Harm(SectionNo(c).b, n % 6)
               IN  [b |-> b, s |-> Spelling(b, (n \div 6) % 10), f |-> Formats[((n + c) % 7) + 1], eq |-> n % 2]
DecodeRun(r) == [op |-> "clidecode", s |-> 1, from |-> 0, b |-> r.s.t, kind |-> r.f, n |-> r.eq]

\* documents: a tree between two texts, through an argument or standard input
Around == << <<<<>>, <<>>>>, <<<<32>>, <<>>>>, <<<<10, 9, 13>>, <<10>>>>, <<<<11, 12>>, <<32, 32>>>>, <<<<194, 160>>, <<>>>>, <<<<194, 133>>, <<>>>>,
             <<<<120>>, <<>>>>, <<<<>>, <<120>>>>, <<<<34>>, <<>>>>, <<<<91>>, <<93>>>>, <<<<239, 187, 191>>, <<>>>>,
             <<<<60>>, <<>>>>, <<<<123>>, <<125>>>> >>
NAround == 13
DocNo(c, n) == [v |-> SectionNo(c).v, kind |-> IF n % 2 = 0 THEN "json" ELSE "xml", via |-> IF (n \div 2) % 2 = 0 THEN "arg" ELSE <<"stdin", "file", "slow">>[((n + c) % 3) + 1],
                around |-> Around[((n \div 4) % NAround) + 1]]
EncodeRun(d) == [op |-> "cliencode", s |-> 1, from |-> 1, t |-> IF d.kind = "json" THEN Plain(JsonOf(d.v)) ELSE XPlain(XmlOf(d.v)),
                 kind |-> d.kind, via |-> d.via, pre |-> d.around[1], post |-> d.around[2]]
\* the same from the library's own documents
EncodeOwn(d) == [op |-> "cliencode", s |-> 1, from |-> 1, kind |-> d.kind, via |-> d.via, pre |-> d.around[1], post |-> d.around[2]]
EncodeText(t, via) == [op |-> "cliencode", s |-> 1, from |-> 0, b |-> t, via |-> via]
Odd == << <<>>, <<32>>, <<10, 10>>, <<123, 125>>, <<60, 62>>, <<123>>, <<60>>, StrBytes("null"), StrBytes("[]"), StrBytes("/DAvAAAAAAAA"), <<194>>, <<194, 160>>,
          StrBytes("<SpliceInfoSection/>"), StrBytes("<SpliceInfoSection></SpliceInfoSection>"), StrBytes("{}{}"), StrBytes("0"), StrBytes("<!-- x --><SpliceInfoSection/>"),
          StrBytes("<?xml version='1.0'?><SpliceInfoSection/>") >>
Wrong == << <<"decode">>, <<"decode", "/DA=", "/DA=">>, <<"encode", "{}", "{}">>, <<"frobnicate">>, <<"decode", "--frob", "/DA=">>,
            <<"decode", "--out">>, <<"encode", "--out=json", "{}">>, <<"--frob">> >>

VARIABLES cur
Init == cur \in {[k |-> "decode", c |-> c, n |-> n] : c \in 1..Bases, n \in 0..3} \cup {[k |-> "encode", c |-> c] : c \in 1..Bases}
                  \cup {[k |-> "odd"]}
Plenty == 7
Runs(c, n) == {x \in 0..59 : x % 4 = n} \cup {x + 60 : x \in {y \in 0..59 : y % 4 = n /\ y % 6 = 0}}
File(name) == IOEnv.OUT_DIR \o "/" \o name \o ".ndjson"
Next ==
  \/ /\ cur.k = "decode"
     /\ \E q \in {SetToSeq({RunNo(cur.c, x) : x \in Runs(cur.c, cur.n)})} :
        /\ ndJsonSerialize(File("d" \o ToString(cur.c) \o "-" \o ToString(cur.n)), <<[n |-> 1, ops |-> [i \in 1..Len(q) |-> DecodeRun(q[i])]]>>)
        /\ cur' \in {[k |-> "run", r |-> q[i]] : i \in 1..Len(q)}
  \/ /\ cur.k = "encode"
     /\ \E q \in {SelectSeq([i \in 1..(4 * NAround) |-> DocNo(cur.c, i - 1)], LAMBDA d : IF d.kind = "json" THEN JsonOk(d.v) ELSE XmlOk(d.v))} :
        /\ ndJsonSerialize(File("e" \o ToString(cur.c)),
             <<[n |-> 1, ops |-> [i \in 1..Len(q) |-> EncodeRun(q[i])]]>>
             \o [i \in 1..Len(q) |-> [n |-> 1, ops |-> <<Put(1, q[i].v), Op(q[i].kind, 1, 0), EncodeOwn(q[i])>>]])
        /\ cur' \in {[k |-> "doc", d |-> q[i]] : i \in 1..Len(q)}
  \/ /\ cur.k = "odd"
     /\ ndJsonSerialize(File("odd"),
             <<[n |-> 1, ops |-> [i \in 1..Len(Odd) |-> EncodeText(Odd[i], "stdin")] \o [i \in 1..Len(Odd) |-> EncodeText(Odd[i], "arg")]
                                 \o [i \in 1..Len(Wrong) |-> [op |-> "cliwrong", s |-> 1, from |-> 0, args |-> Wrong[i]]]]>>)
     /\ cur' \in {[k |-> "text", t |-> Odd[i]] : i \in 1..Len(Odd)}

----------------------------------------------------------------------------
\* how the tool tells inputs apart
EntryOf(t) == CASE Rule = "always" -> "b64"
                [] OTHER -> DecodeEntry(t)
BytesOf(t) ==
  LET e == EntryOf(t)
      body == IF Len(t) >= 2 THEN SubSeq(t, 3, Len(t)) ELSE t
  IN  IF e = "b64" THEN ParseB64(t)
      ELSE IF Rule = "case" /\ \E i \in 1..Len(body) : body[i] \in 65..90 THEN [ok |-> FALSE, v |-> <<>>]
      ELSE ParseHex(body)
TypeOf(t) == CASE Rule = "first" -> (IF t = <<>> THEN "none" ELSE IF t[1] = 60 THEN "xml" ELSE IF t[1] = 123 THEN "json" ELSE "none")
               [] Rule = "angle" -> (IF DocumentType(t) = "xml" THEN "xml" ELSE "json")
               [] OTHER -> DocumentType(t)

AtRun == cur.k = "run"
AtDoc == cur.k = "doc"
\* each spelling is understood, and as the section it spells
Understood == AtRun /\ cur.r.s.ok => BytesOf(cur.r.s.t) = [ok |-> TRUE, v |-> cur.r.b]
\* no section is taken for the other spelling
Unambiguous == AtRun /\ cur.r.b # <<>> => DecodeEntry(B64Of(cur.r.b)) = "b64"
\* the sections that are not understood are the ones with nothing in common with them
Rendered == AtRun => DecodeFormat(cur.r.f) \in {"text", "json", "xml"}
\* space does not matter, anything else in front does
Blanks == {1, 2, 3, 4, 5, 6}
Told == AtDoc => LET first == IF cur.d.kind = "json" THEN 123 ELSE 60
                     t == cur.d.around[1] \o <<first>> \o cur.d.around[2]
                     blank == \E i \in Blanks : Around[i] = cur.d.around
                 IN  (blank => TypeOf(t) = cur.d.kind)
                     /\ (cur.d.around[1] \in {<<120>>, <<34>>, <<91>>, <<239, 187, 191>>} => TypeOf(t) = "none")
=============================================================================
