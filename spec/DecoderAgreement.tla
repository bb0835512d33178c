--------------------------- MODULE DecoderAgreement ---------------------------
(***************************************************************************)
(* What the packets mean to decoders: a picture store of eight slots, kept *)
(* symbolically (which coded picture each slot holds), and for every coded *)
(* picture the samples it stands for, once they have been seen.  A packet  *)
(* makes every attached decoder put out exactly one picture, in the        *)
(* announced format, whose samples are those the encoder reports.          *)
(*                                                                         *)
(* cfg c: [w, h, bpc, layout].  Packet event: [o |-> "R", r |-> "pkt",     *)
(* rec, frames (<<[se, idx, show, refresh]>>), dec (<<[e, n, h, fmt]>>)].  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

A0 == [ slot |-> [i \in 0..7 |-> 0],    \* 0 = nothing, else picture id
        pics |-> <<>>,                  \* picture id -> samples ("" = not seen yet)
        err  |-> "" ]

Fail(a, why) == IF a.err = "" THEN [a EXCEPT !.err = why] ELSE a
Check(a, cond, why) == IF cond THEN a ELSE Fail(a, why)
Rng(q) == {q[i] : i \in 1..Len(q)}

\* learn or compare the samples of a picture that is being displayed
Display(a, id, rec) ==
    IF id = 0 THEN Fail(a, "displays-empty-slot")
    ELSE IF a.pics[id] = "" THEN [a EXCEPT !.pics[id] = rec]
    ELSE Check(a, a.pics[id] = rec, "same-picture-different-samples")

FrameStep(a, f, rec) ==
    IF f.se = 1 THEN Display(a, a.slot[f.idx], rec)
    ELSE LET id == Len(a.pics) + 1
             b == [a EXCEPT !.pics = Append(@, ""),
                            !.slot = [i \in 0..7 |-> IF i \in Rng(f.refresh) THEN id ELSE a.slot[i]]]
         IN IF f.show = 1 THEN Display(b, id, rec) ELSE b

RECURSIVE Frames(_, _, _, _)
Frames(a, fs, i, rec) == IF i > Len(fs) THEN a ELSE Frames(FrameStep(a, fs[i], rec), fs, i + 1, rec)

DecoderOk(c, a, e, x) ==
    LET b1 == Check(a, x.e = 0, "decoder-error")
        b2 == Check(b1, x.n = 1, "one-picture-per-packet")
        b3 == Check(b2, \A k \in 1..Len(x.fmt) : x.fmt[k] = <<c.w, c.h, c.bpc, c.layout>>, "picture-format")
    IN Check(b3, \A k \in 1..Len(x.h) : x.h[k] = e.rec, "decoded-samples")

RECURSIVE Decoders(_, _, _, _)
Decoders(c, a, e, k) == IF k > Len(e.dec) THEN a ELSE Decoders(c, DecoderOk(c, a, e, e.dec[k]), e, k + 1)

Packet(c, a, e) ==
    LET a1 == Check(a, e.rec # "", "reconstruction-reported")
        a2 == Decoders(c, a1, e, 1)
    IN Frames(a2, e.frames, 1, e.rec)
===============================================================================
