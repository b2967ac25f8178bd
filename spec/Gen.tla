--------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* All shapes of sections within bounds: every combination of presence     *)
(* flags, loop counts 0..2 and kinds of UPIDs for every command and        *)
(* descriptor, filled with patterns of field values and of reserved bits;  *)
(* and beyond, long lists in every place that has a list.                  *)
(*                                                                         *)
(* Gen is the third interpreter of the syntax tables, beside Parse and     *)
(* Emit.  It walks a table, building a value and its bits side by side,    *)
(* and makes a choice wherever the syntax leaves one.  The choices are the *)
(* digits of a number, so that the shapes of a structure are numbered:     *)
(*   st = [v, w, x, c, n, z, p, s, m]  value, bits, digits left, fields so *)
(*   far, count, None flag, pattern, whether there is a short TI, what the *)
(*   next count is (0: a choice)                                           *)
(***************************************************************************)
EXTENDS DocRead, Json, IOUtils, FiniteSets

\* how many shapes to keep of each kind and pattern, and which
Limit == atoi(IOEnv.LIMIT)
Seed == atoi(IOEnv.VERIF_SEED)

\* pat: how fields are filled; ones: reserved bits are ones (or zeros)
Patterns == {[pat |-> x, ones |-> y] : x \in {"seq", "ones", "zero", "top"}, y \in BOOLEAN}

PByte(c, k) == (c * 53 + k * 29 + 17) % 256
Fill(p, n, c) ==                       \* n <= 24
  CASE p.pat = "ones" -> Pow2(n) - 1
    [] p.pat = "zero" -> 0
    [] p.pat = "top" -> Pow2(n - 1)
    [] OTHER -> ((PByte(c, 0) * 65536) + (PByte(c, 1) * 256) + PByte(c, 2)) \div Pow2(24 - n)
FillW(p, n, c) ==
  CASE p.pat = "ones" -> <<Pow2(n - 24) - 1, W24 - 1>>
    [] p.pat = "zero" -> Zero
    [] p.pat = "top" -> <<Pow2(n - 25), 0>>
    [] OTHER -> <<Fill(p, n - 24, c), Fill(p, 24, c + 100)>>
FillBytes(p, n, c) == [k \in 1..n |-> CASE p.pat = "ones" -> 255
                                     [] p.pat = "zero" -> 0
                                     [] p.pat = "top" -> 128
                                     [] OTHER -> PByte(c, k)]
Letters(n, c) == [k \in 1..n |-> 65 + ((c + 3 * k) % 26)]

Reserve(p, n) == IF p.ones THEN Pow2(n) - 1 ELSE 0

----------------------------------------------------------------------------
\* contents of segmentation_upid() by type
DtmfChars == <<49, 35, 65, 52, 42, 48, 68>>
OtherChars == <<97, 62, 38, 60, 34, 9, 39>>         \* a>&<"tab'
\* what JSON, XML, printf or a terminal might take for something else
Telling == <<60, 37, 115, 10, 92, 110, 38, 9, 34, 123, 160, 93, 93, 62, 127, 39>>
Mixed == [pat |-> "seq", ones |-> TRUE]
UpidContents ==
  << <<1, Letters(5, 1)>>, <<8, FillBytes(Mixed, 8, 3)>>, <<10, FillBytes(Mixed, 12, 5)>>, <<12, FillBytes(Mixed, 7, 7)>>,
     <<9, <<233, 65, 128>>>>, <<6, FillBytes(Mixed, 12, 11)>>, <<12, FillBytes(Mixed, 4, 13)>>, <<3, Telling>>,
     <<255, FillBytes(Mixed, 2, 17)>>, <<8, FillBytes(Mixed, 3, 19)>>, <<10, <<49, 48, 46, 53, 47, 120>>>>, <<4, Letters(32, 21)>> >>
\* [v, b]: lists of UPIDs and their bytes, type and length included
UpidList1(i) == LET u == UpidContents[i] IN [v |-> <<UpidOf(u[1], u[2])>>, b |-> <<u[1], Len(u[2])>> \o u[2]]
UpidList2(i) ==
  LET u == UpidContents[i]
      x == UpidContents[(i % Len(UpidContents)) + 1]
      body == <<u[1], Len(u[2])>> \o u[2] \o <<x[1], Len(x[2])>> \o x[2]
  IN  [v |-> <<UpidOf(u[1], u[2]), UpidOf(x[1], x[2])>>, b |-> <<13, Len(body)>> \o body]
UpidList3 ==
  LET body == <<9, 0>> \o <<8, 1, 5>> \o <<9, 0>>
  IN  [v |-> <<UpidOf(9, <<>>), UpidOf(8, <<5>>), UpidOf(9, <<>>)>>, b |-> <<13, Len(body)>> \o body]
\* long lists
Several(n, F(_)) ==
  LET us == [k \in 1..n |-> F(k)]
      body == FoldLeft(LAMBDA a, u : a \o <<u[1], Len(u[2])>> \o u[2], <<>>, us)
  IN  [v |-> [k \in 1..n |-> UpidOf(us[k][1], us[k][2])], b |-> <<13, Len(body)>> \o body]
LongLists ==
  << Several(4, LAMBDA k : UpidContents[2 * k]),
     Several(9, LAMBDA k : UpidContents[k]),
     Several(40, LAMBDA k : <<k % 4, <<>>>>),
     Several(3, LAMBDA k : <<13, <<9, 1, 48 + k>>>>),
     Several(6, LAMBDA k : <<9, Letters(1 + ((k * k) % 20), 7)>>),
     Several(2, LAMBDA k : <<15, Letters(60 * k, k)>>)>>
NLists == 24
\* turner_identifier() has eight bytes; shorter ones are read, but not written
ShortTI(i) == i \in {10, 17}
UpidListOf(i) ==                       \* i < NLists
  IF i = 0 THEN [v |-> <<>>, b |-> <<0, 0>>]
  ELSE IF i <= 12 THEN UpidList1(i)
  ELSE IF i <= 16 THEN UpidList2(i - 12)
  ELSE IF i = 17 THEN UpidList3
  ELSE LongLists[i - 17]

TypeIds == <<16, 48, 55, 70>>
Rests == <<0, 1, 2, 9>>
Chars == <<0, 1, 4, 7>>

----------------------------------------------------------------------------
RECURSIVE GenItems(_, _), GenItem(_, _), GenLoop(_, _, _, _)

Take(st, n) == [st EXCEPT !.x = st.x \div n]     \* after using the digit st.x % n

GenLoop(st, it, k, acc) ==             \* k entries to go
  IF k = 0 THEN [st EXCEPT !.v[it.f] = acc]
  ELSE LET x == IF st.m = 0 THEN st.x ELSE ((k * 7057) + (k * k * 31) + st.x + Seed) % 20011   \* every entry its own
           r == GenItems([st EXCEPT !.v = it.d, !.x = x, !.m = 0], it.t)
       IN  GenLoop([r EXCEPT !.v = st.v, !.n = st.n, !.z = st.z, !.m = st.m], it, k - 1, Append(acc, r.v))

GenItem(st, it) ==
  CASE it.k = "u" /\ it.f = "type_id" ->
         LET x == TypeIds[(st.x % 4) + 1]
         IN  [Take(st, 4) EXCEPT !.w = PutN(st.w, it.n, x), !.v[it.f] = x]
    [] it.k = "u" /\ it.f # "type_id" ->
         LET x == Fill(st.p, it.n, st.c)
         IN  [st EXCEPT !.w = PutN(st.w, it.n, x), !.v[it.f] = x, !.c = st.c + 1]
    [] it.k = "w" ->
         LET x == FillW(st.p, it.n, st.c)
         IN  [st EXCEPT !.w = PutW(st.w, it.n, x), !.v[it.f] = x, !.c = st.c + 1]
    [] it.k \in {"b", "nb"} ->
         LET x == st.x % 2 = 1
         IN  [Take(st, 2) EXCEPT !.w = PutN(st.w, 1, IF x = (it.k = "b") THEN 1 ELSE 0), !.v[it.f] = x]
    [] it.k = "r" -> [st EXCEPT !.w = PutN(st.w, it.n, Reserve(st.p, it.n))]
    [] it.k = "if" -> GenItems(st, IF st.v[it.f] = it.v THEN it.t ELSE it.e)
    [] it.k = "count" ->
         IF st.m > 0 THEN LET n == IF st.m < Pow2(it.n) THEN st.m ELSE Pow2(it.n) - 1 IN [st EXCEPT !.w = PutN(st.w, it.n, n), !.n = n]
         ELSE IF it.f = "chars" THEN LET n == Chars[(st.x % 4) + 1] IN [Take(st, 4) EXCEPT !.w = PutN(st.w, it.n, n), !.n = n]
         ELSE IF st.z THEN LET n == st.x % 3 IN [Take(st, 3) EXCEPT !.w = PutN(st.w, it.n, n), !.n = n]
         ELSE LET n == (st.x % 2) + 1 IN [Take(st, 2) EXCEPT !.w = PutN(st.w, it.n, n), !.n = n]
    [] it.k = "loop" -> GenLoop(st, it, st.n, <<>>)
    [] it.k = "str" -> LET x == SubSeq(IF st.p.pat \in {"top", "zero"} THEN OtherChars ELSE DtmfChars, 1, st.n)
                       IN  [st EXCEPT !.w = PutBytes(st.w, x), !.v[it.f] = x]
    [] it.k = "fix" -> LET x == [k \in 1..it.n |-> IF st.p.pat = "top" THEN 33 + ((st.c + (k * 11)) % 94) ELSE 97 + ((st.c + k) % 26)]
                       IN  [st EXCEPT !.w = PutBytes(st.w, x), !.v[it.f] = x, !.c = st.c + 1]
    [] it.k = "rest" -> LET x == FillBytes(st.p, Rests[(st.x % 4) + 1], st.c)
                        IN  [Take(st, 4) EXCEPT !.w = PutBytes(st.w, x), !.v[it.f] = x]
    [] it.k = "none" -> [Take(st, 2) EXCEPT !.w = PutN(st.w, 1, st.x % 2), !.z = st.x % 2 = 1]
    [] it.k = "some" -> IF st.z THEN st ELSE GenItems(st, it.t)
    [] it.k = "upids" -> LET u == UpidListOf(st.x % NLists)
                         IN  [Take(st, NLists) EXCEPT !.w = PutBytes(st.w, u.b), !.v[it.f] = u.v,
                                                   !.s = st.s \/ ShortTI(st.x % NLists)]
    [] it.k = "sub" ->
         IF st.v.type_id \notin SubSegmentTypes \/ st.x % 2 = 0 THEN [Take(st, 2) EXCEPT !.n = 0]
         ELSE LET x == FillBytes(st.p, 2, st.c)
              IN  [Take(st, 2) EXCEPT !.w = PutBytes(st.w, x),
                                      !.v.has_sub_num = TRUE, !.v.sub_segment_num = x[1],
                                      !.v.has_sub_exp = TRUE, !.v.sub_segments_expected = x[2]]

GenItems(st, items) == FoldLeft(LAMBDA a, it : GenItem(a, it), st, items)

\* shape number x of a structure with m entries in its outer lists: [v, b]
GenMany(p, syn, init, x, m) ==
  LET r == GenItems([v |-> init, w |-> NoBits, x |-> x, c |-> 1, n |-> 0, z |-> TRUE, p |-> p, s |-> FALSE, m |-> m], syn)
  IN  [v |-> r.v, b |-> r.w.out, s |-> r.s]
Gen(p, syn, init, x) == GenMany(p, syn, init, x, 0)

\* the shapes of a structure have numbers below this
RECURSIVE Size(_)
Greater(a, b) == IF a > b THEN a ELSE b
Size(items) ==
  FoldLeft(LAMBDA a, it :
      a * (CASE it.k = "u" /\ it.f = "type_id" -> 4
             [] it.k \in {"b", "nb", "none", "sub"} -> 2
             [] it.k = "if" -> Greater(Size(it.t), Size(it.e))
             [] it.k = "count" -> IF it.f = "chars" THEN 4 ELSE 3
             [] it.k = "loop" -> Size(it.t) * Size(it.t)
             [] it.k = "rest" -> 4
             [] it.k = "some" -> Size(it.t)
             [] it.k = "upids" -> NLists
             [] OTHER -> 1), 1, items)

----------------------------------------------------------------------------
(* families of shapes *)

\* the numbers of the shapes to keep.  Sizes have no prime factors but 2 and 3
Offset(p) == (CASE p.pat = "seq" -> 0 [] p.pat = "ones" -> 1 [] p.pat = "zero" -> 2 [] OTHER -> 3) + (IF p.ones THEN 0 ELSE 4)
Kept(p, size) ==
  LET stride == 6 * (size \div (6 * Limit)) + 5
  IN  IF size <= Limit THEN [i \in 1..size |-> i - 1]
      ELSE [i \in 1..Limit |-> ((i * stride) + (Seed * 7919) + (Offset(p) * 4127)) % size]

\* [v, type, b]
CommandSize(k) == Size(CmdSyntax[k].syn)
Command(p, k, x) == LET g == Gen(p, CmdSyntax[k].syn, CmdSyntax[k].init, x)
                    IN  [v |-> g.v, type |-> CmdSyntax[k].code, b |-> g.b]

\* [v, b]: b with tag, length and identifier
Framed(k, g, tag, id) ==
  [v |-> IF k = "private_descriptor" THEN [g.v EXCEPT !.tag = tag, !.identifier = id] ELSE g.v,
   b |-> <<tag, Len(g.b) + 4>> \o U32ToBytes(id) \o g.b, s |-> g.s]
\* tags and identifiers that make a descriptor private
PrivateIds == << <<5, CUEI>>, <<255, CUEI>>, <<2, <<67, 5588296>>>>, <<0, Zero>>, <<2, <<255, 16777215>>>>,
                 <<240, <<1, 0>>>> >>
NPrivate == 6
DescriptorSize(k) == Size(DescSyntax[k].syn) * (IF k = "private_descriptor" THEN NPrivate ELSE 1)
Descriptor(p, k, x) ==
  IF k = "private_descriptor"
  THEN LET i == PrivateIds[(x % NPrivate) + 1]
       IN  Framed(k, Gen(p, DescSyntax[k].syn, DescSyntax[k].init, x \div NPrivate), i[1], i[2])
  ELSE Framed(k, Gen(p, DescSyntax[k].syn, DescSyntax[k].init, x), DescSyntax[k].code, CUEI)

Kinds == <<"splice_null", "splice_schedule", "splice_insert", "time_signal", "bandwidth_reservation", "private_command">>
DKinds == <<"avail_descriptor", "dtmf_descriptor", "segmentation_descriptor", "time_descriptor", "audio_descriptor",
            "private_descriptor">>

NullCommand == [v |-> SpliceNull0, type |-> 0, b |-> <<>>]

\* a section of command c and descriptors ds: [v, b]; form says how its
\* splice_command_length is written, h what its header says
SectionWith(p, c, ds, stuff, form, h) ==
  LET dl == FoldLeft(LAMBDA a, x : a + Len(x.b), 0, ds)
      db == FoldLeft(LAMBDA a, x : a \o x.b, <<>>, ds)
      sl == 17 + Len(c.b) + dl + Len(stuff)
      cl == IF form = "legacy" THEN LegacyLength ELSE Len(c.b)
      f == <<h.proto, h.cw, h.tier>>
      sap == h.sap
      pts == h.pts
      w1 == PutN(PutN(PutN(PutN(NoBits, 8, 252), 2, 0), 2, sap), 12, sl)
      w2 == PutN(PutN(PutN(w1, 8, f[1]), 1, 0), 6, 0)
      w3 == PutN(PutN(PutW(w2, 33, pts), 8, f[2]), 12, f[3])
      w4 == PutN(PutN(w3, 12, cl), 8, c.type)
      w5 == PutBytes(PutN(PutBytes(w4, c.b), 16, dl), db \o stuff)
      body == w5.out
  IN  [v |-> [sap |-> sap, proto |-> f[1], alg |-> 0, pts |-> pts, cw |-> f[2], tier |-> f[3],
              preroll |-> Zero, cmd |-> c.v, descs |-> [i \in 1..Len(ds) |-> ds[i].v]],
       b |-> body \o CrcBytes(body), st |-> stuff, form |-> form,
       canon |-> form # "legacy" /\ p.ones /\ \A i \in 1..Len(ds) : ~ds[i].s]

HeaderFor(p) == [sap |-> Fill(p, 2, 44), proto |-> Fill(p, 8, 41), cw |-> Fill(p, 8, 42), tier |-> Fill(p, 12, 43),
                 pts |-> FillW(p, 33, 45)]
SectionOf(p, c, ds, stuff, form) == SectionWith(p, c, ds, stuff, form, HeaderFor(p))

\* headers, all combinations of their fields at the limits
HeaderPts == << <<0, 1>>, Zero, <<511, 16777215>>, <<256, 0>>, <<255, 16777215>>, <<0, 16777215>> >>
HeadersSize == 4 * 6 * 4 * 4 * 3 * 6
Headers(p, x) ==
  LET h == [sap |-> x % 4, pts |-> HeaderPts[((x \div 4) % 6) + 1], proto |-> <<0, 1, 255, 128>>[((x \div 24) % 4) + 1],
            tier |-> <<4095, 0, 4094, 1>>[((x \div 96) % 4) + 1], cw |-> <<0, 255, 1>>[((x \div 384) % 3) + 1]]
      k == Kinds[(x \div 1152) + 1]
  IN  SectionWith(p, Command(p, k, (x * 31) % CommandSize(k)), <<>>, <<>>, "plain", h)

\* combinations of structures: a command and up to three descriptors
FrameSize == 6 * 8 * 8 * 8 * 3 * 2
Frame(p, x) ==
  LET k == (x % 6) + 1
      d(y) == IF y % 8 < 6 THEN <<(y % 8) + 1>> ELSE <<>>
      ks == d(x \div 6) \o d(x \div 48) \o d(x \div 384)
      n == (x \div 3072) % 3
      form == IF (x \div 9216) % 2 = 1 /\ k # 6 THEN "legacy" ELSE "plain"
      kind(i) == DKinds[ks[i]]
      which(i, size) == (((x * 31) % 7001) + (i * 17) + Seed) % size
  IN  SectionOf(p, Command(p, Kinds[k], which(4, CommandSize(Kinds[k]))),
                [i \in 1..Len(ks) |-> Descriptor(p, kind(i), which(i, DescriptorSize(kind(i))))],
                FillBytes(p, n, 60), form)

\* lists of four descriptors and more, of all kinds
ManySize == 6 * 9 * 64
Many(p, x) ==
  LET k == (x % 6) + 1
      n == 4 + ((x \div 6) % 9)
      kind(i) == DKinds[((((x \div 54) * 13) + (i * i * 7) + (i * ((x \div 54) + 1)) + Seed) % 6) + 1]
      which(i, size) == (((x * 31) % 7001) + (i * 17) + Seed) % size
  IN  SectionOf(p, Command(p, Kinds[k], which(4, CommandSize(Kinds[k]))),
                SelectSeq([i \in 1..n |-> Descriptor(p, kind(i), which(i, DescriptorSize(kind(i))))],
                          LAMBDA d : Len(d.b) <= 257),
                FillBytes(p, <<0, 3, 40, 0, 300, 0, 1>>[(x % 7) + 1], 60), "plain")

\* lists within structures, as long as they can be
LoopCounts(k) == CASE k = "splice_schedule" -> <<3, 17, 64>>
               [] k = "splice_insert" -> <<3, 128, 255>>
               [] k = "segmentation_descriptor" -> <<3, 16, 31>>
               [] k = "audio_descriptor" -> <<3, 8, 15>>
LoopKinds == <<"splice_schedule", "splice_insert", "segmentation_descriptor", "audio_descriptor">>
InnerSize == 4 * 3 * 48
Inner(p, x) ==
  LET k == LoopKinds[(x % 4) + 1]
      m == LoopCounts(k)[((x \div 4) % 3) + 1]
      y == (x \div 12) * 29
  IN  IF k \in DOMAIN CmdSyntax
      THEN LET g == GenMany(p, CmdSyntax[k].syn, CmdSyntax[k].init, y, m)
           IN  SectionOf(p, [v |-> g.v, type |-> CmdSyntax[k].code, b |-> g.b], <<>>, FillBytes(p, (x \div 12) % 3, 60), "plain")
      ELSE LET f(z) == Framed(k, GenMany(p, DescSyntax[k].syn, DescSyntax[k].init, z, m), DescSyntax[k].code, CUEI)
               d == f(y)
           IN  SectionOf(p, NullCommand, IF Len(d.b) <= 257 THEN <<d>> ELSE <<>>, <<>>, "plain")

\* sections of given sizes, filled up with a long command, long descriptors, stuffing or all of them
FullSizes == <<64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 767, 769, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4093, 4095, 4096,
               4097, 4098>>
FillSize == 24 * 4 * 3
RECURSIVE FillDescs(_, _, _)
FillDescs(p, n, c) ==                  \* descriptors with n bytes
  LET m == IF n > 257 + 6 THEN 257 ELSE IF n > 257 THEN 250 ELSE n
      d == [v |-> [DescSyntax["private_descriptor"].init EXCEPT !.tag = c % 256, !.identifier = <<77, c>>, !.bytes = FillBytes(p, m - 6, c)],
            b |-> FillBytes(p, m - 6, c), s |-> FALSE]
  IN  IF n < 6 THEN <<>>
      ELSE <<Framed("private_descriptor", d, c % 256, <<77, c>>)>> \o FillDescs(p, n - m, c + 1)
FillUp(p, x) ==
  LET size == FullSizes[(x % 24) + 1]
      how == (x \div 24) % 4
      tail == ((x \div 96) % 3) * 5    \* bytes of stuffing
      space == size - 20 - tail
      c(n) == [v |-> [PrivateCommand0 EXCEPT !.identifier = <<65, 4342338>>, !.bytes = FillBytes(p, n - 4, 9)], type |-> 255,
               b |-> U32ToBytes(<<65, 4342338>>) \o FillBytes(p, n - 4, 9)]
  IN  CASE how = 0 -> SectionOf(p, c(space), <<>>, FillBytes(p, tail, 60), "plain")
        [] how = 1 -> SectionOf(p, NullCommand, FillDescs(p, space, 3), FillBytes(p, tail, 60), "plain")
        [] how = 2 -> SectionOf(p, NullCommand, <<>>, FillBytes(p, tail + space, 60), "plain")
        [] OTHER -> SectionOf(p, c((space \div 3) + 2), FillDescs(p, (space \div 3) + 4, 9),
                              FillBytes(p, tail + space - (space \div 3) - 2 - (space \div 3) - 4, 60), "plain")

SizeOf(name) == IF name = "frames" THEN FrameSize
                ELSE IF name = "lists" THEN ManySize
                ELSE IF name = "loops" THEN InnerSize
                ELSE IF name = "headers" THEN HeadersSize
                ELSE IF name = "full" THEN FillSize
                ELSE IF name \in DOMAIN CmdSyntax THEN CommandSize(name) ELSE DescriptorSize(name)
Shape(p, name, x) ==
  IF name = "frames" THEN Frame(p, x)
  ELSE IF name = "lists" THEN Many(p, x)
  ELSE IF name = "loops" THEN Inner(p, x)
  ELSE IF name = "headers" THEN Headers(p, x)
  ELSE IF name = "full" THEN FillUp(p, x)
  ELSE IF name \in DOMAIN CmdSyntax THEN SectionOf(p, Command(p, name, x), <<>>, <<>>, "plain")
  ELSE SectionOf(p, NullCommand, <<Descriptor(p, name, x)>>, <<>>, "plain")

Families == ToSet(Kinds) \cup ToSet(DKinds) \cup {"frames", "lists", "loops", "headers", "full"}

----------------------------------------------------------------------------
(* Documents *)

\* the tree without the marks for what may be missing
RECURSIVE Plain(_)
Plain(n) ==
  CASE n[1] = "e" -> JNull
    [] n[1] = "oe" -> JObj(<<>>)
    [] n[1] = "a" -> JArr([i \in 1..Len(n[4]) |-> Plain(n[4][i])])
    [] n[1] = "o" -> JObj([i \in 1..Len(n[4]) |-> <<n[4][i][1], Plain(n[4][i][2])>>])
    [] OTHER -> n

\* the same for elements
RECURSIVE XPlain(_)
XPlain(n) ==
  LET ks == SelectSeq(n[4], LAMBDA y : SubSeq(y[1], 1, 1) # "?")
  IN  <<n[1], n[2], n[3], [i \in 1..Len(ks) |-> XPlain(ks[i])]>>

----------------------------------------------------------------------------
(* Sessions for the driver.  Dec: bytes of the specification; Put: values  *)

Op(op, s, from) == [op |-> op, s |-> s, from |-> from, b |-> <<>>, v |-> <<>>, n |-> 0]
Put(s, v) == [Op("put", s, 0) EXCEPT !.v = v]
Dec(s, b) == [Op("decode", s, 0) EXCEPT !.b = b]
DocOp(op, s, tree) == [op |-> op, s |-> s, t |-> tree]
Reading(f) == IF f = "json" THEN "unjson" ELSE "unxml"

=============================================================================
