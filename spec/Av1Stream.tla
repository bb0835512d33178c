------------------------------- MODULE Av1Stream ------------------------------
(***************************************************************************)
(* What a decoder knows while it follows the stream: the sequence header   *)
(* in force, the eight reference slots with the order hint, type and       *)
(* display state of the picture they hold, and the position in display     *)
(* order.  TU steps one packet through it and names the first structural   *)
(* rule the packet breaks.                                                 *)
(*                                                                         *)
(* cfg c: [er, switch]; a packet event is [o |-> "R", r |-> "pkt", no, ft, *)
(* qp, oerr, obus].  OBU records all carry the same fields (see Obu0).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

KEY == 0
SWITCH == 3
NONE == 7      \* primary_ref_frame_none

Obu0 == [t |-> "td", hash |-> "", ohb |-> 0, se |-> 0, idx |-> 0, ft |-> 0, show |-> 0, showable |-> 0,
         er |-> 0, oh |-> 0, prf |-> 7, refresh |-> <<>>, refs |-> <<>>, roh |-> <<>>, bq |-> 0, fso |-> 0,
         w |-> 0, h |-> 0]

Empty == [v |-> FALSE, oh |-> 0, ft |-> 0, shown |-> FALSE, showable |-> FALSE, gop |-> -1, w |-> 0, h |-> 0]

D0 == [ seq |-> "", ohb |-> 0,
        slots |-> [i \in 0..7 |-> Empty],
        n |-> 0,          \* temporal units seen
        key |-> 0,        \* display position of the last keyframe
        gop |-> -1,       \* number of keyframes seen - 1
        err |-> "" ]

Fail(d, why) == IF d.err = "" THEN [d EXCEPT !.err = why] ELSE d
Check(d, cond, why) == IF cond THEN d ELSE Fail(d, why)

Rng(q) == {q[i] : i \in 1..Len(q)}
IsFrame(o) == o.t \in {"frame", "fh"} /\ o.se = 0
IsSef(o)   == o.t \in {"frame", "fh"} /\ o.se = 1
IsShown(o) == IsSef(o) \/ (IsFrame(o) /\ o.show = 1)

Pow2(n) == 2 ^ n
\* the order hint a picture displayed at this position must carry
HintAt(d, pos) == IF d.ohb = 0 THEN 0 ELSE (pos - d.key) % Pow2(d.ohb)

Store(d, o) ==
    [d EXCEPT !.slots = [i \in 0..7 |->
        IF i \in Rng(o.refresh)
        THEN [v |-> TRUE, oh |-> o.oh, ft |-> o.ft, shown |-> o.show = 1, showable |-> o.showable = 1,
              gop |-> d.gop, w |-> o.w, h |-> o.h]
        ELSE d.slots[i]]]

\* a coded frame
Coded(c, d0, o) ==
    LET isKey == o.ft = KEY
        d1 == IF isKey /\ o.show = 1 THEN [d0 EXCEPT !.gop = @ + 1, !.key = d0.n] ELSE d0
        d2 == Check(d1, d1.seq # "", "frame-before-sequence-header")
        d3 == Check(d2, isKey => (o.show = 1 => o.refresh # <<>> /\ Rng(o.refresh) = 0..7), "keyframe-refreshes-all")
        d4 == Check(d3, isKey => o.prf = NONE, "keyframe-independent")
        d5 == Check(d4, ~isKey => d0.gop >= 0, "starts-with-keyframe")
        d6 == Check(d5, (o.ft = 1 \/ o.ft = SWITCH) => Len(o.refs) = 7, "seven-references")
        d7 == Check(d6, \A x \in Rng(o.refs) : d1.slots[x].v, "reference-exists")
        d8 == Check(d7, ~isKey => \A x \in Rng(o.refs) : d1.slots[x].gop = d1.gop, "reference-crosses-keyframe")
        d9 == Check(d8, (o.prf # NONE) => (o.prf + 1 <= Len(o.refs) /\ d1.slots[o.refs[o.prf + 1]].v), "primary-reference")
        da == Check(d9, (o.er = 1) => o.prf = NONE, "error-resilient-context")
        db == Check(da, (c.er = 1) => o.er = 1, "error-resilient-requested")
        dc == Check(db, (o.roh # <<>>) => \A x \in 0..7 : (d1.slots[x].v /\ d1.slots[x].oh = o.roh[x + 1]), "announced-reference-hints")
        dd == Check(dc, (o.ft = SWITCH) => (o.er = 1 /\ o.prf = NONE /\ Rng(o.refresh) = 0..7 /\ o.show = 1), "switch-frame")
        de == Check(dd, (o.ft = SWITCH) => c.switch > 0, "switch-unrequested")
        df == Check(de, o.show = 1 => o.oh = HintAt(d1, d0.n), "order-hint")
        dg == Check(df, o.show = 0 => (o.showable = 1 /\ o.oh # HintAt(d1, d0.n)), "hidden-frame")
        dh == Check(dg, o.w = c.w /\ o.h = c.h, "frame-size")
    IN IF isKey /\ o.show = 1
       THEN Store([dh EXCEPT !.slots = [i \in 0..7 |-> Empty]], o)
       ELSE Store(dh, o)

\* a frame shown from memory
ShowExisting(c, d, o) ==
    LET s == d.slots[o.idx]
        d1 == Check(d, s.v, "shows-missing-frame")
        d2 == Check(d1, s.v => (s.showable /\ ~s.shown), "shows-frame-again")
        d3 == Check(d2, s.v => s.oh = HintAt(d, d.n), "order-hint-existing")
        d4 == Check(d3, s.v => s.gop = d.gop, "existing-crosses-keyframe")
    IN [d4 EXCEPT !.slots = [i \in 0..7 |->
          IF @[i].v /\ @[i].oh = s.oh /\ @[i].gop = s.gop THEN [@[i] EXCEPT !.shown = TRUE] ELSE @[i]]]

ObuStep(c, d, o) ==
    CASE o.t = "td" -> d
      [] o.t = "seq" -> LET d1 == Check(d, d.seq = "" \/ d.seq = o.hash, "sequence-header-changes")
                        IN [d1 EXCEPT !.seq = o.hash, !.ohb = o.ohb]
      [] IsSef(o) -> ShowExisting(c, d, o)
      [] IsFrame(o) -> Coded(c, d, o)
      [] OTHER -> d

RECURSIVE Fold(_, _, _, _)
Fold(c, d, os, i) == IF i > Len(os) THEN d ELSE Fold(c, ObuStep(c, d, os[i]), os, i + 1)

Idxs(os, P(_)) == {i \in 1..Len(os) : P(os[i])}
IsTd(o) == o.t = "td"
IsSeq(o) == o.t = "seq"
IsKeyF(o) == IsFrame(o) /\ o.ft = KEY

ShownOf(os) == LET S == Idxs(os, IsShown) IN os[CHOOSE i \in S : TRUE]
ShownType(d, o) == IF IsSef(o) THEN d.slots[o.idx].ft ELSE o.ft

TU(c, d, e) ==
    LET os == e.obus
        d1 == Check(d, e.oerr = "", "syntax")
        d2 == Check(d1, Len(os) > 0 /\ IsTd(os[1]) /\ Cardinality(Idxs(os, IsTd)) = 1, "temporal-delimiter")
        d3 == Check(d2, Cardinality(Idxs(os, IsShown)) = 1, "one-shown-frame")
        d4 == Check(d3, Idxs(os, IsKeyF) # {} => \E i \in Idxs(os, IsSeq) : \A j \in Idxs(os, IsKeyF) : i < j, "keyframe-needs-sequence-header")
        d5 == IF d4.err # "" THEN d4
              ELSE Check(d4, \A i \in Idxs(os, IsFrame) \cup Idxs(os, IsSef) : IsShown(os[i]) => \A j \in Idxs(os, IsFrame) : j <= i, "shown-frame-last")
        d6 == IF d5.err # "" THEN d5
              ELSE Check(d5, ShownType(d5, ShownOf(os)) = e.ft, "frame-type")
        d7 == IF d6.err # "" THEN d6
              ELSE Check(d6, ~IsSef(ShownOf(os)) => ShownOf(os).bq = e.qp, "quantizer")
        d8 == IF d7.err # "" THEN d7 ELSE Fold(c, d7, os, 1)
    IN [d8 EXCEPT !.n = @ + 1]

\* decoding from the keyframe in packet e.at: same pictures, no error
RaOk(recs, e) == /\ \A i \in 1..Len(e.e) : e.e[i] = 0
                 /\ \A i \in 1..Len(e.h) : e.h[i] = recs[e.at + i]
===============================================================================
