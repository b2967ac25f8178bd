------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Interpreters of the syntax tables: Parse reads a structure from bytes,  *)
(* Emit writes one.  They only share the tables.                           *)
(***************************************************************************)
EXTENDS Syntax

----------------------------------------------------------------------------
(* Parse: st = [p, e, c, z]: bit position, value so far, the last count     *)
(* and the last None flag.  b holds the structure and nothing behind it;   *)
(* the position moves on past its end (an overflow), reading zeros.        *)

\* the member UPIDs of a MID()
RECURSIVE MidUpids(_, _, _)
MidUpids(b, i, acc) ==                 \* i: byte offset
  IF i >= Len(b) THEN acc
  ELSE LET len == ByteAt(b, i + 1)
       IN  MidUpids(b, i + 2 + len,
                    Append(acc, UpidOf(ByteAt(b, i), SliceAt(b, i + 2, len))))

RECURSIVE ParseItems(_, _, _), ParseItem(_, _, _), ParseLoop(_, _, _, _)

ParseLoop(b, st, it, acc) ==           \* st.c entries to go
  IF st.c = 0 THEN [st EXCEPT !.e[it.f] = acc]
  ELSE LET r == ParseItems(b, [p |-> st.p, e |-> it.d, c |-> 0, z |-> FALSE], it.t)
       IN  ParseLoop(b, [st EXCEPT !.p = r.p, !.c = st.c - 1], it, Append(acc, r.e))

ParseItem(b, st, it) ==
  CASE it.k = "u" -> [st EXCEPT !.p = st.p + it.n, !.e[it.f] = GetN(b, st.p, it.n)]
    [] it.k = "w" -> [st EXCEPT !.p = st.p + it.n, !.e[it.f] = GetW(b, st.p, it.n)]
    [] it.k = "b" -> [st EXCEPT !.p = st.p + 1, !.e[it.f] = GetBit(b, st.p)]
    [] it.k = "nb" -> [st EXCEPT !.p = st.p + 1, !.e[it.f] = ~GetBit(b, st.p)]
    [] it.k = "r" -> [st EXCEPT !.p = st.p + it.n]
    [] it.k = "if" -> ParseItems(b, st, IF st.e[it.f] = it.v THEN it.t ELSE it.e)
    [] it.k = "count" -> [st EXCEPT !.p = st.p + it.n, !.c = GetN(b, st.p, it.n)]
    [] it.k = "loop" -> ParseLoop(b, st, it, <<>>)
    [] it.k = "str" -> [st EXCEPT !.p = st.p + 8 * st.c,
                                  !.e[it.f] = SliceAt(b, st.p \div 8, st.c)]
    [] it.k = "fix" -> [st EXCEPT !.p = st.p + 8 * it.n,
                                  !.e[it.f] = SliceAt(b, st.p \div 8, it.n)]
    [] it.k = "rest" -> LET s == SliceAt(b, st.p \div 8, Len(b))
                        IN  [st EXCEPT !.p = st.p + 8 * Len(s), !.e[it.f] = s]
    [] it.k = "none" -> [st EXCEPT !.p = st.p + 1, !.z = GetBit(b, st.p)]
    [] it.k = "some" -> IF st.z THEN st ELSE ParseItems(b, st, it.t)
    [] it.k = "upids" ->
         LET type == GetN(b, st.p, 8)
             len == GetN(b, st.p + 8, 8)
             s == SliceAt(b, (st.p + 16) \div 8, len)
         IN  [st EXCEPT !.p = st.p + 16 + 8 * len,
                        !.e[it.f] = IF len = 0 THEN <<>>
                                    ELSE IF type = TypeMID THEN MidUpids(s, 0, <<>>)
                                    ELSE <<UpidOf(type, s)>>]
    [] it.k = "sub" ->
         IF st.e[it.f] \in SubSegmentTypes /\ 8 * Len(b) = st.p + 16
         THEN [st EXCEPT !.p = st.p + 16,
                         !.e.has_sub_num = TRUE, !.e.sub_segment_num = GetN(b, st.p, 8),
                         !.e.has_sub_exp = TRUE, !.e.sub_segments_expected = GetN(b, st.p + 8, 8)]
         ELSE st

ParseItems(b, st, items) == FoldLeft(LAMBDA s, it : ParseItem(b, s, it), st, items)

\* parse structure b, whose fields start at bit p: [v, err, used]
Parse(b, p, syn, init) ==
  LET r == ParseItems(b, [p |-> p, e |-> init, c |-> 0, z |-> FALSE], syn)
  IN  [v |-> r.e,
       err |-> IF r.p > 8 * Len(b) THEN "overflow"
               ELSE IF r.p < 8 * Len(b) THEN "underflow" ELSE "none",
       used |-> r.p]

----------------------------------------------------------------------------
(* Emit: st = [w, fit, over, dc]: the writer, whether every scalar fits its *)
(* field, whether a count or a fixed-size string does not, and whether the *)
(* content of a UPID is left open.                                         *)

RECURSIVE EmitItems(_, _, _), EmitItem(_, _, _)

UpidList(st, us) ==                    \* the members of a MID()
  FoldLeft(LAMBDA s, u :
      LET r == UpidBytes(u)
          n == Len(r.v)
          fits == FitsN(u.type, 8) /\ n <= 255
      IN  [w |-> PutBytes(s.w, <<IF FitsN(u.type, 8) THEN u.type ELSE 0, n % 256>> \o r.v),
           fit |-> s.fit /\ FitsN(u.type, 8), over |-> s.over \/ n > 255,
           dc |-> s.dc \/ r.k = "dc"],
    st, us)

EmitUpids(st, us) ==
  IF us = <<>> THEN [st EXCEPT !.w = PutBytes(st.w, <<0, 0>>)]
  ELSE IF Len(us) = 1 THEN UpidList(st, us)
  ELSE LET r == UpidList([st EXCEPT !.w = NoBits], us)
           n == Len(r.w.out)
       IN  [r EXCEPT !.w = PutBytes(st.w, <<TypeMID, n % 256>> \o r.w.out),
                     !.over = r.over \/ n > 255]

\* segmentation_upid_length
UpidLength(us) ==
  IF us = <<>> THEN 0
  ELSE IF Len(us) = 1 THEN Len(UpidBytes(us[1]).v)
  ELSE FoldLeft(LAMBDA a, u : a + 2 + Len(UpidBytes(u).v), 0, us)

EmitItem(v, st, it) ==
  CASE it.k = "u" -> LET ok == FitsN(v[it.f], it.n)
                     IN  [st EXCEPT !.w = PutN(st.w, it.n, IF ok THEN v[it.f] ELSE 0),
                                    !.fit = st.fit /\ ok]
    [] it.k = "w" -> LET ok == FitsW(v[it.f], it.n)
                     IN  [st EXCEPT !.w = PutW(st.w, it.n, IF ok THEN v[it.f] ELSE Zero),
                                    !.fit = st.fit /\ ok]
    [] it.k = "b" -> [st EXCEPT !.w = PutN(st.w, 1, IF v[it.f] THEN 1 ELSE 0)]
    [] it.k = "nb" -> [st EXCEPT !.w = PutN(st.w, 1, IF v[it.f] THEN 0 ELSE 1)]
    [] it.k = "r" -> [st EXCEPT !.w = PutN(st.w, it.n, Pow2(it.n) - 1)]
    [] it.k = "if" -> EmitItems(v, st, IF v[it.f] = it.v THEN it.t ELSE it.e)
    [] it.k = "count" -> LET n == Len(v[it.f])
                             ok == FitsN(n, it.n)
                         IN  [st EXCEPT !.w = PutN(st.w, it.n, IF ok THEN n ELSE 0),
                                        !.over = st.over \/ ~ok]
    [] it.k = "loop" -> FoldLeft(LAMBDA s, x : EmitItems(x, s, it.t), st, v[it.f])
    [] it.k \in {"str", "rest"} -> [st EXCEPT !.w = PutBytes(st.w, v[it.f])]
    [] it.k = "fix" -> LET ok == Len(v[it.f]) = it.n
                       IN  [st EXCEPT !.w = PutBytes(st.w, v[it.f]), !.over = st.over \/ ~ok]
    [] it.k = "none" -> [st EXCEPT !.w = PutN(st.w, 1, IF v[it.f] = <<>> THEN 1 ELSE 0)]
    [] it.k = "some" -> IF v[it.f] = <<>> THEN st ELSE EmitItems(v, st, it.t)
    [] it.k = "upids" -> EmitUpids(st, v[it.f])
    [] it.k = "sub" ->
         IF v.type_id \in SubSegmentTypes /\ (v.has_sub_num \/ v.has_sub_exp)
         THEN LET n == IF v.has_sub_num THEN v.sub_segment_num ELSE 0
                  e == IF v.has_sub_exp THEN v.sub_segments_expected ELSE 0
                  ok == FitsN(n, 8) /\ FitsN(e, 8)
              IN  [st EXCEPT !.w = IF ok THEN PutBytes(st.w, <<n, e>>) ELSE st.w,
                             !.fit = st.fit /\ ok]
         ELSE st

EmitItems(v, st, items) == FoldLeft(LAMBDA s, it : EmitItem(v, s, it), st, items)

Emit(v, syn) == EmitItems(v, [w |-> NoBits, fit |-> TRUE, over |-> FALSE, dc |-> FALSE], syn)
=============================================================================
