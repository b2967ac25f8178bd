------------------------------- MODULE Streak -------------------------------
(***************************************************************************)
(* A library that keeps no account of how it has been used: however often  *)
(* a call has been made in a row, and however it ended, the next one does  *)
(* what it does on its own.                                                *)
(*                                                                         *)
(* The state is a run: the call that is repeated, how often it was made,   *)
(* and the account that the design keeps (the real one: none).  Designs    *)
(*   good      no account                                                  *)
(*   tolerant  after Patience failures in a row, no more failures          *)
(*   tired     after Patience calls, every call fails                      *)
(*   once      a call that has failed once fails at once ever after        *)
(*   full      a store of what was read before is thrown away when it is   *)
(*             full, with the result of the call that fills it             *)
(* Every run of the good design and every probe after it is a session.     *)
(***************************************************************************)
EXTENDS Gen

Design == IOEnv.DESIGN
Patience == 3
MaxRun == atoi(IOEnv.MAXRUN)

\* the calls, and whether they succeed on their own
Repeatable ==
  << <<"decode", "good">>, <<"decode", "other">>, <<"decode", "crc">>, <<"decode", "cut">>, <<"decode", "command">>,
     <<"decode", "empty">>, <<"textb64", "good">>, <<"textb64", "bad">>, <<"texthex", "good">>, <<"texthex", "bad">>,
     <<"unjson", "good">>, <<"unjson", "bad">>, <<"unxml", "good">>, <<"unxml", "bad">>, <<"encode", "good">>,
     <<"encode", "bad">>, <<"json", "good">>, <<"xml", "good">>, <<"b64", "good">>, <<"b64", "bad">>, <<"hex", "good">>,
     <<"table", "good">>, <<"dur", "good">>, <<"derived", "good">>, <<"bytes", "good">>, <<"bytes", "bad">>,
     <<"upid", "good">>, <<"names", "good">>, <<"ticks", "good">>, <<"decode", "long">>, <<"decode", "legacy">> >>
Fails(c) == c[2] \in {"crc", "cut", "command", "empty", "bad"}

----------------------------------------------------------------------------
VARIABLES call, times, account, told      \* told: did the last call fail (<<>>: none made yet)

vars == <<call, times, account, told>>

Init == call \in 1..Len(Repeatable) /\ times = 0 /\ account = 0 /\ told = <<>>

\* does call c fail with this account
FailsNow(c, a) ==
  CASE Design = "tolerant" -> Fails(c) /\ a < Patience
    [] Design = "tired" -> Fails(c) \/ a >= Patience
    [] Design = "once" -> Fails(c) \/ a > 0
    [] Design = "full" -> Fails(c) \/ a = Patience
    [] OTHER -> Fails(c)
Entry(c, a) ==
  CASE Design = "tolerant" -> IF Fails(c) THEN a + 1 ELSE 0
    [] Design = "tired" -> a + 1
    [] Design = "once" -> IF Fails(c) THEN 1 ELSE a
    [] Design = "full" -> (a + 1) % (Patience + 1)
    [] OTHER -> 0

\* the runs that are tried: all short ones, and the ones around round numbers
Tried(n) == n <= 12 \/ n \in {15, 16, 17, 20, 21, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257,
                              511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097}

\* what the calls do on their own is what they do
Alone == told # <<>> => told[1] = Fails(Repeatable[call])

----------------------------------------------------------------------------
(* Sessions *)

P == [pat |-> "seq", ones |-> TRUE]
One == SectionOf(P, Command(P, "splice_insert", 36), <<Descriptor(P, "segmentation_descriptor", 7919),
                                                       Descriptor(P, "avail_descriptor", 0)>>, <<>>, "plain")
Other == SectionOf(P, Command(P, "splice_schedule", 14), <<Descriptor(P, "audio_descriptor", 1)>>, <<>>, "plain")
Wordy == Many(P, 3001)
Old == SectionOf(P, Command(P, "time_signal", 1), <<Descriptor(P, "dtmf_descriptor", 2)>>, <<>>, "legacy")
Cmdless == SectionWith(P, [v |-> SpliceNull0, type |-> 5, b |-> <<1, 2>>], <<>>, <<>>, "plain", HeaderFor(P))
Hit(b) == [b EXCEPT ![Len(b)] = (@ + 1) % 256]
Cut(b) == SubSeq(b, 1, Len(b) - 7)
Docs(v) == [j |-> Plain(JsonOf(v)), x |-> XPlain(XmlOf(v))]
BadJson == JObj(<<<<"sapType", JStr(<<65>>)>>>>)
BadXml == <<"SpliceInfoSection", <<>>, <<<<"sapType", <<65>>>>>>, <<>>>>

\* [one, other, wordy, old, bare]: sections; [j, x] documents of one
World == [one |-> One.b, other |-> Other.b, wordy |-> Wordy.b, old |-> Old.b, bare |-> Cmdless.b, doc |-> Docs(One.v)]

\* call c in world w, on slot 1; what observes observes slot 2
Real(c, w) ==
  CASE c[1] = "decode" -> <<Dec(1, CASE c[2] = "good" -> w.one [] c[2] = "other" -> w.other [] c[2] = "crc" -> Hit(w.one)
                                     [] c[2] = "cut" -> Cut(w.one) [] c[2] = "command" -> w.bare [] c[2] = "empty" -> <<>>
                                     [] c[2] = "long" -> w.wordy [] c[2] = "legacy" -> w.old)>>
    [] c = <<"textb64", "good">> -> <<[Op("decodeb64", 1, 0) EXCEPT !.b = w.one]>>
    [] c = <<"texthex", "good">> -> <<[Op("decodehex", 1, 0) EXCEPT !.b = w.other, !.n = 3]>>
    [] c = <<"textb64", "bad">> -> <<[Op("textb64", 1, 0) EXCEPT !.b = StrBytes("/DA!")]>>
    [] c = <<"texthex", "bad">> -> <<[Op("texthex", 1, 0) EXCEPT !.b = StrBytes("0xFC30zz")]>>
    [] c[1] = "unjson" -> <<DocOp("unjson", 1, IF c[2] = "bad" THEN BadJson ELSE w.doc.j)>>
    [] c[1] = "unxml" -> <<DocOp("unxml", 1, IF c[2] = "bad" THEN BadXml ELSE w.doc.x)>>
    [] c = <<"encode", "bad">> -> <<Op("encode", 3, 0)>>
    [] c = <<"b64", "bad">> -> <<Op("b64", 3, 0)>>
    [] c[1] = "bytes" -> <<[Op("bytes", 2, 0) EXCEPT !.b = IF c[2] = "bad" THEN <<48, 57, 97, 120>> ELSE <<48, 57, 97, 98>>]>>
    [] c[1] = "upid" -> <<[Op("upid", 2, 0) EXCEPT !.n = 10, !.b = FillBytes(P, 12, 4)]>>
    [] c[1] = "names" -> <<[Op("names", 2, 0) EXCEPT !.n = 48, !.b = <<49>>]>>
    [] c[1] = "ticks" -> <<[Op("ticks", 2, 0) EXCEPT !.n = 123457]>>
    [] OTHER -> <<Op(c[1], 2, 0)>>

\* the probes: every call once, beginning with number k
Probes(k, w) == LET n == Len(Repeatable)
                    at(i) == Real(Repeatable[((k + (i * 7)) % n) + 1], w)
                IN  FoldLeft(LAMBDA a, i : a \o at(i), <<>>, [i \in 1..n |-> i])
Times(op, n) == op @@ [times |-> n]
SessionAfter(c, n, k, w) ==
  [n |-> 3, ops |-> <<Dec(2, w.one), Op("fresh", 3, 0)>> \o <<Times(Real(c, w)[1], n)>> \o Probes(k, w) \o <<Op("held", 1, 0)>>]

\* the runs of one call up to MaxRun, each with a few first probes
WriteRuns(c) ==
  \E w \in {World} :
    \E ns \in {SelectSeq([i \in 1..MaxRun |-> i], Tried)} :
      ndJsonSerialize(IOEnv.OUT_DIR \o "/" \o Repeatable[c][1] \o "-" \o Repeatable[c][2] \o ".ndjson",
                      [i \in 1..Len(ns) |-> SessionAfter(Repeatable[c], ns[i], c + (i * 11), w)])

\* once more the same
Repeat ==
  /\ times < MaxRun
  /\ Design # "good" \/ times > 0 \/ WriteRuns(call)
  /\ times' = times + 1 /\ call' = call
  /\ account' = Entry(Repeatable[call], account)
  /\ told' = <<FailsNow(Repeatable[call], account)>>

\* or another one, and that is the end
Probe ==
  /\ times < MaxRun
  /\ \E q \in 1..Len(Repeatable) : call' = q /\ told' = <<FailsNow(Repeatable[q], account)>>
  /\ times' = MaxRun /\ UNCHANGED account

Next == Repeat \/ Probe

Spec == Init /\ [][Next]_vars
=============================================================================
