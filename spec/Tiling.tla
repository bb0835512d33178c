-------------------------------- MODULE Tiling --------------------------------
(***************************************************************************)
(* Tile layouts.  Std: the limits the AV1 standard derives from a picture  *)
(* (5.9.15, Annex A), in 64x64 superblocks.  Layout: the layout the        *)
(* encoder documents for a request.  Bad: which rule an observed layout    *)
(* breaks.  A request is                                                   *)
(*   q = [w, h, is422, tc, tr, tiles, rate]                                *)
(* with tc, tr the base-2 logarithms of the requested columns and rows,    *)
(* tiles the requested total (0: none) and rate the logarithm of the       *)
(* number of tiles the picture rate demands.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE TileLog2(_, _)
TileLog2(blk, target) == IF blk >= target THEN 0 ELSE 1 + TileLog2(blk * 2, target)

MaxW == 64              \* 4096 luma samples
MaxArea == 2304         \* 4096 * 2304 samples

Std(w, h) ==
    LET sc == CeilDiv(w, 64)
        sr == CeilDiv(h, 64)
        minC == TileLog2(MaxW, sc)
    IN [ sc |-> sc, sr |-> sr, minC |-> minC,
         maxC |-> TileLog2(1, Min(sc, 64)), maxR |-> TileLog2(1, Min(sr, 64)),
         minT |-> Max(minC, TileLog2(MaxArea, sc * sr)) ]

MaxHeight(s, tw) == LET a == IF s.minT > 0 THEN (s.sc * s.sr) \div (2 ^ (s.minT + 1)) ELSE s.sc * s.sr
                    IN Max(a \div Min(tw, s.sc), 1)
RECURSIVE Lower(_, _, _)
Lower(s, rl, mh) == IF rl < s.maxR /\ CeilDiv(s.sr, 2 ^ rl) > mh THEN Lower(s, rl + 1, mh) ELSE rl
Even(x) == ((x + 1) \div 2) * 2
RECURSIVE ForLogs(_, _, _)
\* layout for given logarithms
ForLogs(q, c0, r0) ==
    LET s == Std(q.w, q.h)
        c1 == Min(Max(c0, s.minC), s.maxC)
        tw0 == CeilDiv(s.sc, 2 ^ c1)
        tw == IF q.is422 = 1 THEN Even(tw0) ELSE tw0
        cols == CeilDiv(s.sc, tw)
        cl == TileLog2(1, cols)
        minR == Max(0, s.minT - cl)
        rl0 == Min(Max(Max(r0, minR), Max(s.minT, q.rate) - cl), s.maxR)
        \* without the uniform spacing syntax the tile height is limited
        rl == IF CeilDiv(s.sc, 2 ^ cl) # tw /\ s.minT > 0 THEN Lower(s, rl0, MaxHeight(s, tw)) ELSE rl0
        th == CeilDiv(s.sr, 2 ^ rl)
    IN IF CeilDiv(s.sc, 2 ^ cl) # tw /\ s.minT > 0 /\ th > MaxHeight(s, tw) /\ c1 < s.maxC
       THEN ForLogs(q, c1 + 1, r0)     \* narrower tiles are needed
       ELSE [ cols |-> cols, rows |-> CeilDiv(s.sr, th), tw |-> tw, th |-> th, cl |-> cl, rl |-> rl ]

RECURSIVE Search(_, _, _)
Search(q, c, r) ==
    LET t == ForLogs(q, c, r)
        s == Std(q.w, q.h)
    IN IF t.cols * t.rows >= q.tiles \/ (c >= s.maxC /\ r >= s.maxR) THEN t
       ELSE IF (t.th >= t.tw /\ t.rl < s.maxR) \/ c >= s.maxC THEN Search(q, c, r + 1)
       ELSE Search(q, c + 1, r)

Layout(q) == IF q.tiles > 0 THEN Search(q, 0, 0) ELSE ForLogs(q, q.tc, q.tr)

Uniform(s, t) == CeilDiv(s.sc, 2 ^ t.cl) = t.tw /\ CeilDiv(s.sr, 2 ^ t.rl) = t.th

\* name of the first broken rule, or "" (t: observed layout)
Bad(q, t) ==
    LET s == Std(q.w, q.h)
        minR == Max(0, s.minT - t.cl)
        maxH == MaxHeight(s, t.tw)
        want == CeilDiv(s.sc, 2 ^ q.tc)
        fin == ForLogs(q, s.maxC, s.maxR)
    IN CASE ~(t.tw >= 1 /\ t.th >= 1 /\ t.cols >= 1 /\ t.rows >= 1) -> "empty-tile"
         [] ~(t.cols * t.tw >= s.sc /\ t.rows * t.th >= s.sr) -> "picture-not-covered"
         [] ~((t.cols - 1) * t.tw < s.sc /\ (t.rows - 1) * t.th < s.sr) -> "tile-outside-picture"
         [] ~(t.cols <= 64 /\ t.rows <= 64) -> "too-many-tiles"
         [] ~(Min(t.tw, s.sc) <= MaxW) -> "tile-too-wide"
         [] ~(t.cols <= 2 ^ t.cl /\ (t.cl = 0 \/ t.cols > 2 ^ (t.cl - 1)) /\ t.rows <= 2 ^ t.rl) -> "logarithms"
         [] Uniform(s, t) /\ ~(t.cl \in s.minC..s.maxC /\ t.rl \in minR..s.maxR) -> "uniform-not-codable"
         [] ~Uniform(s, t) /\ ~(Min(t.th, s.sr) <= maxH) -> "tile-area"
         [] q.tiles = 0 /\ q.tc \in s.minC..s.maxC /\ ~LET x == IF q.is422 = 1 THEN Even(want) ELSE want
                                                            IN t.tw = x \/ (q.is422 = 1 /\ s.minT > 0 /\ t.tw < x) -> "requested-columns"
         [] q.tiles = 0 /\ q.tc > s.maxC /\ ~(t.tw = IF q.is422 = 1 THEN Even(CeilDiv(s.sc, 2 ^ s.maxC)) ELSE CeilDiv(s.sc, 2 ^ s.maxC)) -> "most-columns"
         [] q.tiles = 0 /\ q.tr \in Max(minR, q.rate - t.cl)..s.maxR /\ (Uniform(s, t) \/ s.minT = 0) /\ ~(t.th = CeilDiv(s.sr, 2 ^ q.tr)) -> "requested-rows"
         [] q.tiles = 0 /\ q.tr > s.maxR /\ ~(t.th = CeilDiv(s.sr, 2 ^ s.maxR)) -> "most-rows"
         [] q.tiles > 0 /\ ~(t.cols * t.rows >= Min(q.tiles, fin.cols * fin.rows)) -> "requested-tiles"
         [] ~(t.cl + t.rl >= Min(q.rate, t.cl + s.maxR)) -> "rate-limit"
         [] OTHER -> ""
===============================================================================
