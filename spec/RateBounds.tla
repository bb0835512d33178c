------------------------------- MODULE RateBounds ------------------------------
(***************************************************************************)
(* Quantizers.  A frame is <<se, ft, show, bq, ydc, udc, vdc>>: shown from *)
(* memory or coded, its type, whether it is shown, its base quantizer      *)
(* index and the offsets of the other indices.                             *)
(*                                                                         *)
(* A group holds encodes of one video that differ in the rate control only:*)
(*   Lo    constant quantizer at the minimum                               *)
(*   Hi    constant quantizer at the maximum                               *)
(*   Cq    as Hi, with changes that alter packet sizes only                *)
(*   Rate  a bitrate, between the minimum and the maximum                  *)
(* The content of a frame scales its quantizer the same way in every one   *)
(* of them, so the constant-quantizer encodes give the bounds of each      *)
(* frame.  Where the minimum exceeds the maximum, the minimum wins.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

G0 == [lo |-> <<>>, hi |-> <<>>, top |-> FALSE]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Within(lo, hi, q) == lo <= q /\ q <= Max(lo, hi)

\* positions up to which two encodes have the same structure
Same(f, g) == f[1] = g[1] /\ f[2] = g[2] /\ f[3] = g[3]
RECURSIVE Alike(_, _, _)
Alike(a, b, i) == IF i > Len(a) THEN i - 1 ELSE IF i > Len(b) THEN i - 1
                  ELSE IF Same(a[i], b[i]) THEN Alike(a, b, i + 1) ELSE i - 1
Comparable(a, b) == 1..Alike(a, b, 1)

Indices(f) == {f[4], f[4] + f[5], f[4] + f[6], f[4] + f[7]}

Rules11(g, e) == <<
    <<"run-fails", e.end = "LimitReached">>,
    <<"base-index-zero", \A i \in 1..Len(e.fr) : e.fr[i][1] = 0 => e.fr[i][4] \in 1..255>>,
    <<"plane-index-out-of-range", \A i \in 1..Len(e.fr) : e.fr[i][1] = 0 => \A x \in Indices(e.fr[i]) : x \in 0..255>>,
    <<"reported-quantizer", \A i \in 1..Len(e.qp) : e.qp[i][1] = e.qp[i][2]>>,
    <<"quantizer-follows-packet-sizes", e.o = "Cq" =>
        \A i \in Comparable(e.fr, g.hi) : e.fr[i][1] = 1 \/ e.fr[i][4] = g.hi[i][4]>>,
    <<"below-minimum", e.o = "Rate" =>
        \A i \in Comparable(e.fr, g.lo) : e.fr[i][1] = 1 \/ e.fr[i][4] >= g.lo[i][4]>>,
    <<"above-maximum", e.o = "Rate" /\ ~g.top =>
        \A i \in Comparable(e.fr, g.lo) \cap Comparable(e.fr, g.hi) :
            e.fr[i][1] = 1 \/ e.fr[i][4] <= Max(g.lo[i][4], g.hi[i][4])>> >>

Learn(g, e) == CASE e.o = "Lo" -> [g EXCEPT !.lo = e.fr]
                 [] e.o = "Hi" -> [g EXCEPT !.hi = e.fr, !.top = (e.q >= 255)]
                 [] OTHER -> g
===============================================================================
