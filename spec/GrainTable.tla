------------------------------ MODULE GrainTable -------------------------------
(***************************************************************************)
(* Film grain: which parameters every displayed picture announces.         *)
(*                                                                         *)
(* A table is a sequence of segments                                       *)
(*   [start, end, seed, y, cb, cr, shift, lag, ay, acb, acr, ashift, gss,  *)
(*    m = <<<<mult, luma, offset>>, <<..>>>>, ov, cfl]                     *)
(* start/end in 1/10^7 s, as digit sequences (BigNat).  cfg c:             *)
(*   [segs, num, den (time base, BigNat), mono, s420, lim]                 *)
(* A coded picture takes a picture id; it is displayed by its own header   *)
(* or later by a show-existing header that names its slot.  The decoder    *)
(* side state g: slot -> picture id, seed already seen per picture, seeds  *)
(* used by each segment since the last keyframe.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BigNat

Inc == 3248
DefaultSeed == 10956
Advance(s) == LET t == (s + Inc) % 65536 IN IF t = 0 THEN DefaultSeed ELSE t

\* the segment is in force when picture n is displayed:
\* start <= n * num/den * 10^7 < end
Covers(c, s, n) ==
    LET t == Mul(Mul(Big(n), c.num), Big(10000000))
    IN Leq(Mul(s.start, c.den), t) /\ Lt(t, Mul(s.end, c.den))
Covering(c, n) == {j \in 1..Len(c.segs) : Covers(c, c.segs[j], n)}

Take(q, n) == SubSeq(q, 1, n)
Cfl(c, s) == IF c.mono THEN 0 ELSE s.cfl
Uv(c, s, q) == IF c.mono \/ s.cfl = 1 \/ (c.s420 /\ s.y = <<>>) THEN <<>> ELSE q
\* what a stream of this format can carry of a segment (AV1 5.9.30)
Announced(c, s) ==
    LET cfl == Cfl(c, s)
        cb == Uv(c, s, s.cb)
        cr == Uv(c, s, s.cr)
        na == 2 * s.lag * (s.lag + 1)
        nc == na + (IF s.y = <<>> THEN 0 ELSE 1)
    IN [ y |-> s.y, cfl |-> cfl, cb |-> cb, cr |-> cr, shift |-> s.shift, lag |-> s.lag,
         ay  |-> IF s.y = <<>> THEN <<>> ELSE Take(s.ay, na),
         acb |-> IF cfl = 1 \/ cb # <<>> THEN Take(s.acb, nc) ELSE <<>>,
         acr |-> IF cfl = 1 \/ cr # <<>> THEN Take(s.acr, nc) ELSE <<>>,
         ashift |-> s.ashift, gss |-> s.gss,
         mb |-> IF cb # <<>> THEN s.m[1] ELSE <<>>, mr |-> IF cr # <<>> THEN s.m[2] ELSE <<>>,
         ov |-> s.ov, lim |-> c.lim ]

\* what the bitstream can express (AV1 5.9.30, 6.8.20); a table with any other
\* segment is refused
Increasing(q) == \A k \in 1..Len(q) - 1 : q[k][1] < q[k + 1][1]
Valid(c, s) ==
    LET a == [cfl |-> Cfl(c, s), cb |-> Uv(c, s, s.cb), cr |-> Uv(c, s, s.cr)]
        na == 2 * s.lag * (s.lag + 1)
        nc == na + (IF s.y = <<>> THEN 0 ELSE 1)
    IN /\ s.shift \in 8..11 /\ s.lag \in 0..3 /\ s.ashift \in 6..9 /\ s.gss \in 0..3
       /\ s.m[1][3] < 256 /\ s.m[2][3] < 256
       /\ Increasing(s.y) /\ Increasing(a.cb) /\ Increasing(a.cr)
       /\ c.s420 => (a.cb = <<>> <=> a.cr = <<>>)
       /\ s.y # <<>> => Len(s.ay) >= na
       /\ (a.cfl = 1 \/ a.cb # <<>>) => Len(s.acb) >= nc
       /\ (a.cfl = 1 \/ a.cr # <<>>) => Len(s.acr) >= nc

\* seeds derived from a segment's own: its value after 0..n steps
RECURSIVE Chain(_, _)
Chain(s, n) == IF n = 0 THEN {s} ELSE {s} \cup Chain(Advance(s), n - 1)

K0 == [ slot |-> [i \in 0..7 |-> 0], pics |-> <<>>, used |-> {}, n |-> 0, coded |-> 0, err |-> "" ]
Fail(g, why) == IF g.err = "" THEN [g EXCEPT !.err = why] ELSE g
Check(g, cond, why) == IF cond THEN g ELSE Fail(g, why)
Rng(q) == {q[i] : i \in 1..Len(q)}

\* picture id is displayed at position g.n announcing x: [on, p, seed]
Show(c, g, id, x) ==
    LET cov == Covering(c, g.n)
        fits == {j \in cov : Announced(c, c.segs[j]) = x.p}
        \* coded pictures so far bound how far a seed can have advanced
        okseed == {j \in fits : x.seed \in Chain(c.segs[j].seed, 2 * g.coded + 2)}
        g1 == Check(g, cov = {} => ~x.on, "grain-outside-every-segment")
        g2 == Check(g1, cov # {} => x.on, "grain-missing")
        g3 == Check(g2, x.on => fits # {}, "segment-parameters")
        g4 == Check(g3, x.on => okseed # {}, "seed-of-segment")
        g5 == Check(g4, id # 0, "displays-empty-slot")
    IN IF g5.err # "" THEN g5
       ELSE IF g5.pics[id] # -2 THEN g5    \* shown before: same header, same grain
       ELSE LET u == <<CHOOSE j \in okseed : TRUE, x.seed>>
                g6 == IF x.on THEN Check(g5, u \notin g5.used, "seed-repeats") ELSE g5
            IN [g6 EXCEPT !.pics[id] = IF x.on THEN x.seed ELSE -1, !.used = IF x.on THEN @ \cup {u} ELSE @]

FrameStep(c, g, f, x) ==
    IF f.se = 1 THEN [Show(c, g, g.slot[f.idx], x) EXCEPT !.n = @ + 1]
    ELSE LET id == Len(g.pics) + 1
             h == [g EXCEPT !.pics = Append(@, -2), !.coded = @ + 1,
                            !.used = IF f.key = 1 THEN {} ELSE @,
                            !.slot = [i \in 0..7 |-> IF i \in Rng(f.refresh) THEN id ELSE g.slot[i]]]
         IN IF f.show = 1 THEN [Show(c, h, id, x) EXCEPT !.n = @ + 1] ELSE h
RECURSIVE Frames(_, _, _, _, _)
Frames(c, g, fs, i, x) == IF i > Len(fs) THEN g ELSE Frames(c, FrameStep(c, g, fs[i], x), fs, i + 1, x)

\* creating the encoder
Create(c, g, r) == Check(g, r = (IF \A j \in 1..Len(c.segs) : Valid(c, c.segs[j]) THEN "ok" ELSE "InvalidFilmGrain"), "table-accepted-or-refused")

(* packet event: [o |-> "P", fg (flags of the sequence headers in it), frames, x,    *)
(*  dec, a, b]: a = <<reconstruction, type, qp, frame number>>, b the same of the    *)
(*  encode without a table                                                           *)
Packet(c, g, e) ==
    LET g1 == Check(g, e.dec = "ok", "decodes")
        g2 == Check(g1, \A v \in Rng(e.fg) : v = (IF c.segs = <<>> THEN 0 ELSE 1), "announced-in-sequence-header")
        g3 == Check(g2, c.segs = <<>> => ~e.x.on, "grain-without-table")
        g4 == Check(g3, e.a = e.b, "grain-changes-picture")
        g5 == Frames(c, g4, e.frames, 1, e.x)
    IN Check(g5, g5.n = g4.n + 1, "one-picture-per-packet")
===============================================================================
