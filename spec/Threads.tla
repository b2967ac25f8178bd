------------------------------- MODULE Threads ------------------------------
(***************************************************************************)
(* Goroutines that each work on their own signals.  Every call is a few    *)
(* atomic steps; what the calls have in common is the memory of the        *)
(* package.  All interleavings of two (or three) goroutines with two calls *)
(* each are explored on the design that the library claims to have and on  *)
(* others:                                                                 *)
(*   good     the package's memory is only read                            *)
(*   locked   results are remembered under a mutex                         *)
(*   once     a table is built by the first call, under a mutex            *)
(*   scratch  calls share a scratch buffer                                 *)
(*   lazy     a table is built by the first call, without a mutex          *)
(*   memo     the last result is remembered, without a mutex               *)
(*   pool     a buffer is given back while its content is still in use     *)
(*   mode     a call changes a global setting and restores it              *)
(*   atomic   memo with cells that are read and written atomically         *)
(*   split    scratch with a mutex that is held for each access only       *)
(* The last two have no data race, so that only the results tell: the      *)
(* driver also repeats the same calls for a long time (hammer.go).         *)
(* Every set of calls that run together is a group of sessions for the     *)
(* driver, which runs them at the same time under the race detector.       *)
(***************************************************************************)
EXTENDS Gen

Design == IOEnv.DESIGN
NThreads == atoi(IOEnv.THREADS)
Threads == 1..NThreads
Calls2 == 2                            \* calls of each
\* what a call is about: an argument; what it must return
Args == {1, 2}
Answer(a) == 10 + a

VARIABLES
  at,        \* where each thread is: its step
  todo,      \* how many calls it still makes
  arg,       \* the argument of its call
  reg,       \* its local memory
  scratch, ready, table, key, val, lock, free, owner, setting,   \* the package's
  got,       \* [arg, result] of finished calls
  job        \* (the sessions: which pair of calls)
shared == <<scratch, ready, table, key, val, lock, free, owner, setting>>
all == <<at, todo, arg, reg, shared, got, job>>

\* groups of sessions are only written by the good design
Init ==
  /\ at = [t \in Threads |-> "idle"] /\ todo = [t \in Threads |-> Calls2]
  /\ arg = [t \in Threads |-> 0] /\ reg = [t \in Threads |-> 0]
  /\ scratch = 0 /\ ready = FALSE /\ table = 0 /\ key = 0 /\ val = 0 /\ lock = 0 /\ free = <<1, 2, 3>> /\ owner = [c \in 1..3 |-> 0]
  /\ setting = 0 /\ got = {} /\ job = 0

Go(t, where) == at' = [at EXCEPT ![t] = where]
Load(t, x) == reg' = [reg EXCEPT ![t] = x]
Answers(t, x) == /\ got' = got \cup {<<arg[t], x>>}
                /\ at' = [at EXCEPT ![t] = "idle"]

Begin(t) == /\ at[t] = "idle" /\ todo[t] > 0
            /\ \E a \in Args : arg' = [arg EXCEPT ![t] = a]
            /\ todo' = [todo EXCEPT ![t] = @ - 1]
            /\ Go(t, "one") /\ Load(t, 0) /\ UNCHANGED <<shared, got, job>>

Others(t) == UNCHANGED <<todo, arg, job>>
\* steps by design; a step touches at most one cell of the package
Plainly(t) ==
  \/ at[t] = "one" /\ Go(t, "two") /\ Load(t, arg[t]) /\ UNCHANGED <<shared, got>>
  \/ at[t] = "two" /\ Answers(t, 10 + reg[t]) /\ UNCHANGED <<reg, shared>>
Scratch(t) ==
  \/ at[t] = "one" /\ scratch' = arg[t] /\ Go(t, "two") /\ UNCHANGED <<reg, got, ready, table, key, val, lock, free, owner, setting>>
  \/ at[t] = "two" /\ Load(t, scratch) /\ Go(t, "three") /\ UNCHANGED <<shared, got>>
  \/ at[t] = "three" /\ Answers(t, 10 + reg[t]) /\ UNCHANGED <<reg, shared>>
Lazy(t) ==
  \/ at[t] = "one" /\ Go(t, IF ready THEN "use" ELSE "mark") /\ UNCHANGED <<reg, shared, got>>
  \/ at[t] = "mark" /\ ready' = TRUE /\ Go(t, "fill") /\ UNCHANGED <<reg, got, scratch, table, key, val, lock, free, owner, setting>>
  \/ at[t] = "fill" /\ table' = 10 /\ Go(t, "use") /\ UNCHANGED <<reg, got, scratch, ready, key, val, lock, free, owner, setting>>
  \/ at[t] = "use" /\ Answers(t, table + arg[t]) /\ UNCHANGED <<reg, shared>>
Memo(t) ==
  \/ at[t] = "one" /\ Go(t, IF key = arg[t] THEN "hit" ELSE "key") /\ UNCHANGED <<reg, shared, got>>
  \/ at[t] = "key" /\ key' = arg[t] /\ Go(t, "val") /\ UNCHANGED <<reg, got, scratch, ready, table, val, lock, free, owner, setting>>
  \/ at[t] = "val" /\ val' = 10 + arg[t] /\ Go(t, "done") /\ UNCHANGED <<reg, got, scratch, ready, table, key, lock, free, owner, setting>>
  \/ at[t] = "done" /\ Answers(t, 10 + arg[t]) /\ UNCHANGED <<reg, shared>>
  \/ at[t] = "hit" /\ Answers(t, val) /\ UNCHANGED <<reg, shared>>
Locked(t) ==
  \/ at[t] = "one" /\ lock = 0 /\ lock' = t /\ Go(t, "look") /\ UNCHANGED <<reg, got, scratch, ready, table, key, val, free, owner, setting>>
  \/ at[t] = "look" /\ Go(t, IF key = arg[t] THEN "hit" ELSE "key") /\ UNCHANGED <<reg, shared, got>>
  \/ at[t] = "key" /\ key' = arg[t] /\ Go(t, "val") /\ UNCHANGED <<reg, got, scratch, ready, table, val, lock, free, owner, setting>>
  \/ at[t] = "val" /\ val' = 10 + arg[t] /\ Go(t, "hit") /\ UNCHANGED <<reg, got, scratch, ready, table, key, lock, free, owner, setting>>
  \/ at[t] = "hit" /\ Load(t, val) /\ Go(t, "unlock") /\ UNCHANGED <<shared, got>>
  \/ at[t] = "unlock" /\ lock' = 0 /\ Go(t, "done") /\ UNCHANGED <<reg, got, scratch, ready, table, key, val, free, owner, setting>>
  \/ at[t] = "done" /\ Answers(t, reg[t]) /\ UNCHANGED <<reg, shared>>
Once(t) ==
  \/ at[t] = "one" /\ lock = 0 /\ lock' = t /\ Go(t, "look") /\ UNCHANGED <<reg, got, scratch, ready, table, key, val, free, owner, setting>>
  \/ at[t] = "look" /\ Go(t, IF ready THEN "unlock" ELSE "mark") /\ UNCHANGED <<reg, shared, got>>
  \/ at[t] = "mark" /\ ready' = TRUE /\ Go(t, "fill") /\ UNCHANGED <<reg, got, scratch, table, key, val, lock, free, owner, setting>>
  \/ at[t] = "fill" /\ table' = 10 /\ Go(t, "unlock") /\ UNCHANGED <<reg, got, scratch, ready, key, val, lock, free, owner, setting>>
  \/ at[t] = "unlock" /\ lock' = 0 /\ Go(t, "use") /\ UNCHANGED <<reg, got, scratch, ready, table, key, val, free, owner, setting>>
  \/ at[t] = "use" /\ Answers(t, table + arg[t]) /\ UNCHANGED <<reg, shared>>
\* buffers come from a pool (which is safe itself), hold the result and are
\* given back before the caller reads it
Pool(t) ==
  \/ at[t] = "one" /\ free # <<>> /\ Load(t, Head(free)) /\ free' = Tail(free) /\ Go(t, "two")
     /\ UNCHANGED <<got, scratch, ready, table, key, val, lock, owner, setting>>
  \/ at[t] = "two" /\ owner' = [owner EXCEPT ![reg[t]] = 10 + arg[t]] /\ Go(t, "back") /\ UNCHANGED <<reg, got, scratch, ready, table, key, val, lock, free, setting>>
  \/ at[t] = "back" /\ free' = <<reg[t]>> \o free /\ Go(t, "read") /\ UNCHANGED <<reg, got, scratch, ready, table, key, val, lock, owner, setting>>
  \/ at[t] = "read" /\ Answers(t, owner[reg[t]]) /\ UNCHANGED <<reg, shared>>
Mode(t) ==
  \/ at[t] = "one" /\ Go(t, IF arg[t] = 1 THEN "set" ELSE "use") /\ UNCHANGED <<reg, shared, got>>
  \/ at[t] = "set" /\ setting' = 5 /\ Go(t, "work") /\ UNCHANGED <<reg, got, scratch, ready, table, key, val, lock, free, owner>>
  \/ at[t] = "work" /\ Load(t, setting) /\ Go(t, "reset") /\ UNCHANGED <<shared, got>>
  \/ at[t] = "reset" /\ setting' = 0 /\ Go(t, "give") /\ UNCHANGED <<reg, got, scratch, ready, table, key, val, lock, free, owner>>
  \/ at[t] = "give" /\ Answers(t, 6 + reg[t]) /\ UNCHANGED <<reg, shared>>
  \/ at[t] = "use" /\ Answers(t, 12 + setting) /\ UNCHANGED <<reg, shared>>

Step(t) == /\ Others(t)
           /\ CASE Design = "good" -> Plainly(t) [] Design \in {"scratch", "split"} -> Scratch(t) [] Design = "lazy" -> Lazy(t)
                [] Design \in {"memo", "atomic"} -> Memo(t) [] Design = "locked" -> Locked(t) [] Design = "once" -> Once(t)
                [] Design = "pool" -> Pool(t) [] Design = "mode" -> Mode(t)

----------------------------------------------------------------------------
(* Which cell the next step of a thread touches: [c, w]; "": none *)

Touch(c, w) == [c |-> c, w |-> w]
Access(t) ==
  LET a == at[t] IN
  CASE a \in {"idle", "done", "give"} \/ Design \in {"good", "atomic", "split"} -> Touch("", FALSE)
    [] Design = "scratch" -> IF a = "one" THEN Touch("scratch", TRUE) ELSE IF a = "two" THEN Touch("scratch", FALSE) ELSE Touch("", FALSE)
    [] Design \in {"lazy", "once"} -> CASE a = "one" /\ Design = "lazy" -> Touch("ready", FALSE) [] a = "look" -> Touch("ready", FALSE)
                                       [] a = "mark" -> Touch("ready", TRUE)
                                       [] a = "fill" -> Touch("table", TRUE) [] a = "use" -> Touch("table", FALSE)
                                       [] OTHER -> Touch("", FALSE)
    [] Design \in {"memo", "locked"} -> CASE a = "one" /\ Design = "memo" -> Touch("key", FALSE) [] a = "look" -> Touch("key", FALSE)
                                         [] a = "key" -> Touch("key", TRUE)
                                         [] a = "val" -> Touch("val", TRUE) [] a = "hit" -> Touch("val", FALSE)
                                         [] OTHER -> Touch("", FALSE)
    [] Design = "pool" -> IF a = "two" THEN Touch("buf" \o ToString(reg[t]), TRUE)
                          ELSE IF a = "read" THEN Touch("buf" \o ToString(reg[t]), FALSE) ELSE Touch("", FALSE)
    [] Design = "mode" -> IF a \in {"set", "reset"} THEN Touch("setting", TRUE)
                          ELSE IF a \in {"work", "use"} THEN Touch("setting", FALSE) ELSE Touch("", FALSE)
    [] OTHER -> Touch("", FALSE)

\* every call returns what it would have returned alone
Alone == \A x \in got : x[2] = Answer(x[1])
\* two threads are never about to touch a cell that one of them changes
RaceFree == \A t, u \in Threads : t # u /\ Access(t).c # "" /\ Access(t).c = Access(u).c => ~Access(t).w /\ ~Access(u).w

----------------------------------------------------------------------------
(* Sessions.  A group: the calls p and q at the same time, by four         *)
(* goroutines each, on different signals of the same kinds, several times. *)

Kinds2 == <<"decode", "encode", "b64", "hex", "json", "xml", "table", "derived", "dur", "unjson", "unxml", "decodeb64", "decodehex", "text", "pure">>
NKinds == 15
Pat(n) == [pat |-> IF n % 2 = 0 THEN "seq" ELSE "top", ones |-> TRUE]
\* a signal with many kinds of structures
Rich(n) ==
  LET d(k, m) == Descriptor(Pat(n), DKinds[k], (((n * 31) + (m * 7919) + Seed) * 101) % DescriptorSize(DKinds[k]))
      c == Kinds[((n + Seed) % 6) + 1]
  IN  SectionOf(Pat(n), Command(Pat(n), c, ((n * 131) + Seed) % CommandSize(c)),
                <<d(3, 1), d(((n + 1) % 6) + 1, 2), d(3, 3), d(((n + 4) % 6) + 1, 4), d(6, 5)>>, <<>>, "plain")
Calling(k, r) ==
  LET b == r.b
      v == r.v
      o == Kinds2[k]
  IN  CASE o = "decode" -> <<Dec(2, b)>>
        [] o \in {"encode", "b64", "hex", "json", "xml", "table", "derived", "dur"} -> <<Op(o, 1, 0)>>
        [] o = "unjson" -> <<Op("json", 1, 0), Op("unjson", 2, 1)>>
        [] o = "unxml" -> <<Op("xml", 1, 0), Op("unxml", 2, 1)>>
        [] o = "decodeb64" -> <<[Op("decodeb64", 2, 0) EXCEPT !.b = b]>>
        [] o = "decodehex" -> <<[Op("decodehex", 2, 0) EXCEPT !.b = b, !.n = 1]>>
        [] o = "text" -> <<[op |-> "upid", s |-> 1, from |-> 0, b |-> SubSeq(b, 3, 14), n |-> 10], [op |-> "names", s |-> 1, from |-> 0, n |-> b[5], b |-> <<>>],
                           [op |-> "ticks", s |-> 1, from |-> 0, n |-> b[6] * 1000], [op |-> "gps", s |-> 1, from |-> 0, n |-> b[7] * 100000],
                           [Op("bytes", 2, 0) EXCEPT !.b = HexOf(b, HexL)]>>
        [] o = "pure" -> <<Op("all", 1, 0)>>
Again(q) == q \o q \o q
Member2(g, k, n) == LET r == Rich(n) IN [n |-> 2, g |-> g, ops |-> <<Dec(1, r.b), Put(2, r.v)>> \o Again(Calling(k, r)) \o <<Op("held", 1, 0)>>]
GroupNo(p, q) == (p * NKinds) + q
GroupOf(p, q) == [i \in 1..8 |-> Member2(GroupNo(p, q), IF i % 2 = 1 THEN p ELSE q, IF i <= 2 THEN p + q ELSE p + q + i)]
WriteGroups ==
  /\ Design = "good" /\ job = 0
  /\ \E p \in 1..NKinds :
       /\ ndJsonSerialize(IOEnv.OUT_DIR \o "/g" \o ToString(p) \o ".ndjson",
                          FlattenSeq([q \in 1..p |-> GroupOf(p, q)]))
       /\ job' = p
  /\ UNCHANGED <<at, todo, arg, reg, shared, got>>

Next == \/ job = 0 /\ \E t \in Threads : Begin(t) \/ Step(t)
        \/ at = [t \in Threads |-> "idle"] /\ todo = [t \in Threads |-> Calls2] /\ WriteGroups
=============================================================================
