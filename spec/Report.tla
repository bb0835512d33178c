-------------------------------- MODULE Report --------------------------------
(***************************************************************************)
(* What an encode reports about itself, against what it made.              *)
(*                                                                         *)
(* The command-line encoder is a reporter: after every packet it writes a  *)
(* line on that packet and on the run so far, and at the end a summary.    *)
(* The ledger below holds what was made (packets in output order with      *)
(* their true size, type, quantizer and PSNR) and accepts a report only if *)
(* every figure in it follows from that history.  PSNR is in units of      *)
(* 10^-4 dB, percentages in 10^-1, quantizers in 10^-2; sizes, which can   *)
(* exceed TLC's integers once multiplied by rates, go through BigNat.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNat

Types == 0..3           \* key, inter, intra-only, switch, as the bitstream has them
RECURSIVE SumOf(_, _)
SumOf(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumOf(s, i + 1)
Sum(s) == SumOf(s, 1)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, d) == Abs(a - b) <= d

Lg0 == [cfg |-> [verbose |-> 0, psnr |-> FALSE, rate |-> <<<<1>>, <<1>>>>, limit |-> <<>>, limited |-> FALSE],
        made |-> <<>>, told |-> 0, bytes |-> 0, err |-> ""]

Fail(g, why) == IF g.err = "" THEN [g EXCEPT !.err = why] ELSE g
Require(g, ok, why) == IF ok THEN g ELSE Fail(g, why)

(* ------------------------------------------------------------- figures *)
\* bits per second of the first k frames, rounded down
Bps(bytes, k, rate) == Div(Mul(Big(8 * bytes), rate[1]), Mul(Big(k), rate[2]))
\* a figure printed in units of 10 bits per second
BpsShown(shown, bytes, k, rate) ==
    LET t == Bps(bytes, k, rate) s == Mul(shown, Big(10))
    IN Leq(s, Add(t, Big(6))) /\ Leq(t, Add(s, Big(6)))
\* expected size of the whole, if there are `limit` frames like the first k
Est(bytes, k, limit) == Div(Mul(Big(bytes), limit), Big(IF k = 0 THEN 1 ELSE k))
\* printed in units of 10^-2 MiB
EstShown(shown, bytes, k, limit) ==
    LET t == Mul(Est(bytes, k, limit), Big(100)) s == Mul(shown, Big(1048576))
    IN Leq(s, Add(t, Big(530000))) /\ Leq(t, Add(s, Big(530000)))

Progress(g, e, k) ==
    LET a == Require(g, e.k = k, "progress-count")
        b == Require(a, e.limited = g.cfg.limited /\ (g.cfg.limited => e.limit = g.cfg.limit), "progress-total")
        c == Require(b, k = 0 \/ BpsShown(e.kbps, g.bytes, k, g.cfg.rate), "bitrate")
    IN Require(c, ~g.cfg.limited \/ EstShown(e.est, g.bytes, k, g.cfg.limit), "estimated-size")

(* --------------------------------------------------------------- steps *)
Begin(c) == [Lg0 EXCEPT !.cfg = c]

\* p: [no, ft, len, qp, psnr]
Made(g, p) ==
    LET h == Require(g, g.told = Len(g.made) \/ g.cfg.verbose = 0, "packet-not-reported")
    IN [h EXCEPT !.made = Append(@, p), !.bytes = @ + p.len]

\* one line of the report, or one state of the progress indicator
Told(g, e) ==
    IF g.told >= Len(g.made) THEN Fail(g, "report-without-packet")
    ELSE LET p == g.made[g.told + 1]
             h == [g EXCEPT !.told = @ + 1]
             a == IF g.cfg.verbose < 2 THEN h
                  ELSE LET x == Require(h, e.no = p.no, "line-frame-number")
                           y == Require(x, e.ft = p.ft, "line-frame-type")
                           z == Require(y, e.len = p.len, "line-size")
                       IN Require(z, IF g.cfg.psnr
                                     THEN Len(e.psnr) = 3 /\ \A c \in 1..3 : Near(e.psnr[c], p.psnr[c], 1)
                                     ELSE e.psnr = <<>>, "line-psnr")
         IN Progress(a, e, h.told)

OfType(g, t) == SelectSeq(g.made, LAMBDA p : p.ft = t)
Field(s, f) == [x \in DOMAIN s |-> s[x][f]]

\* the row of the summary for one frame type
Row(g, e) ==
    LET s == OfType(g, e.ft) n == Len(s)
        a == Require(g, e.n = n, "summary-count")
        b == Require(a, e.size = (IF n = 0 THEN 0 ELSE Sum(Field(s, "len")) \div n), "summary-size")
    IN Require(b, Near(e.qp * n, 100 * Sum(Field(s, "qp")), n) /\ (n = 0 => e.qp = 0), "summary-quantizer")

\* mean PSNR: [all, y, u, v]; p.psnr has the three planes and then all
Mean(g, e) ==
    LET n == Len(g.made)
        col(c) == Sum([x \in DOMAIN g.made |-> g.made[x].psnr[c]])
    IN Require(Require(g, g.cfg.psnr, "unasked-psnr"),
               n = 0 \/ (/\ Near(e.psnr[1] * n, col(4), 2 * n)
                         /\ \A c \in 1..3 : Near(e.psnr[c + 1] * n, col(c), 2 * n)), "mean-psnr")

\* a table of percentages of what the frames of type e.ft are made of;
\* e.rest: kinds the table leaves out, so that it need not add up
Table(g, e) ==
    LET s == Sum(e.pct) n == Len(OfType(g, e.ft))
    IN Require(g, IF n = 0 THEN s = 0
                  ELSE \* pictures shown again have no blocks of their own
                       IF e.none THEN s = 0 ELSE s <= 1000 + Len(e.pct) /\ (e.rest \/ s >= 1000 - Len(e.pct)),
               "table-" \o e.what)

\* the settings line: all pairs are as asked for
Settings(g, e) == Require(g, e.said = e.want, "settings")

\* after the last packet: the progress once more, unless quiet
Last(g, e) == Progress(Require(g, g.told = Len(g.made), "packet-not-reported"), e, Len(g.made))

\* e.rows: frame types that had a row; e.lines: output of a quiet run
End(g, e) ==
    LET a == Require(g, g.told = (IF g.cfg.verbose = 0 THEN 0 ELSE Len(g.made)), "packet-not-reported")
        b == Require(a, e.rows = (IF g.cfg.verbose = 0 THEN 0 ELSE 4), "summary-rows")
        c == Require(b, e.means = (IF g.cfg.psnr /\ g.cfg.verbose > 0 THEN 1 ELSE 0), "mean-psnr-lines")
    IN Require(c, g.cfg.verbose > 0 \/ e.lines = 0, "quiet-run-speaks")

(* ------------------------------------------- what a packet says of itself *)
\* e: a packet from the library with the parsed header beside it.  Every
\* pixel of the picture, aligned to whole blocks, belongs to exactly one
\* block of one size, one transform type, one mode per kind of plane.
Area(w, h) == 64 * ((w + 7) \div 8) * ((h + 7) \div 8)
SelfTold(g, e) ==
    LET area == IF e.se = 1 THEN 0 ELSE Area(e.w, e.h)
        a == Require(g, e.qp = e.bq, "packet-quantizer")
        b == Require(a, e.ft = e.hft, "packet-type")
        c == Require(b, e.said = <<e.no, e.ft, e.len>>, "packet-text")
        d == Require(c, Sum(e.bs) = area, "block-size-pixels")
        f == Require(d, Sum(e.tx) = area, "transform-pixels")
        h == Require(f, Sum(e.y) = area, "luma-mode-pixels")
        i == Require(h, Sum(e.uv) = area, "chroma-mode-pixels")
        j == Require(i, e.skip <= area, "skipped-pixels")
        k == Require(j, \A x \in DOMAIN e.bs : e.bs[x] = 0 \/ x \in e.sizes, "impossible-block-size")
        \* modes 1..13 are intra, 14 is chroma from luma
        l == Require(k, e.y[14] = 0, "luma-from-luma")
    IN Require(l, e.ft \in {0, 2} => \A x \in 15..Len(e.y) : e.y[x] = 0 /\ e.uv[x] = 0, "inter-mode-in-intra-frame")
===============================================================================
