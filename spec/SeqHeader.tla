------------------------------- MODULE SeqHeader -------------------------------
(***************************************************************************)
(* The AV1 sequence header (AV1 specification, 5.5): its syntax as a bit   *)
(* reader and writer, what its fields mean, what a configuration must      *)
(* announce through them, and the container header and HDR metadata that   *)
(* go with it.  32-bit values are kept as two 16-bit halves.               *)
(*                                                                         *)
(* A configuration c is a record                                           *)
(*   w, h          picture size        sar  <<num, den>> pixel shape       *)
(*   bd, cs, csp   bit depth, 400/420/422/444, chroma sample position      *)
(*   full          full pixel range    color <<>> or <<cp, tc, mc>>        *)
(*   level         31 = unconstrained  still, timing, grain  flags         *)
(*   tb            <<num hi, num lo, den hi, den lo>>                      *)
(*   cll           <<>> or 2 values    mdcv <<>> or 12 values              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

(* ---- syntax: the fields in order, when they are present, their width ---- *)
Order == << "profile", "still", "reduced", "timing", "tick_hi", "tick_lo", "scale_hi", "scale_lo", "equal", "one_tick",
            "decoder_model", "display_delay", "op_count", "op_idc", "level", "tier", "op_delay", "op_delay_value",
            "wbits", "hbits", "w", "h", "frame_ids", "sb128", "filter_intra", "intra_edge",
            "interintra", "masked", "warped", "dual", "order_hint", "jnt", "ref_mvs", "choose_sct", "sct", "choose_imv", "imv", "hint_bits",
            "superres", "cdef", "restoration",
            "high", "twelve", "mono", "has_color", "cp", "tc", "mc", "range", "ssx", "ssy", "csp", "separate_uv", "grain" >>

Srgb(r) == Get(r, "cp", 2) = 1 /\ Get(r, "tc", 2) = 13 /\ Get(r, "mc", 2) = 0
IsMono(r) == Get(r, "mono", 0) = 1
Depth(r) == IF r["high"] = 0 THEN 8 ELSE IF Get(r, "twelve", 0) = 1 THEN 12 ELSE 10
Ssx(r) == CASE IsMono(r) -> 1
            [] Srgb(r) -> 0
            [] r["profile"] = 0 -> 1
            [] r["profile"] = 1 -> 0
            [] OTHER -> IF Depth(r) = 12 THEN Get(r, "ssx", 0) ELSE 1
Ssy(r) == CASE IsMono(r) -> 1
            [] Srgb(r) -> 0
            [] r["profile"] = 0 -> 1
            [] r["profile"] = 1 -> 0
            [] OTHER -> IF Depth(r) = 12 THEN Get(r, "ssy", 0) ELSE 0

Present(r, f) ==
    CASE f \in {"timing", "display_delay", "op_count", "op_idc", "frame_ids", "interintra", "masked", "warped", "dual", "order_hint", "choose_sct"}
            -> r["reduced"] = 0
      [] f \in {"tick_hi", "tick_lo", "scale_hi", "scale_lo", "equal", "decoder_model"} -> Get(r, "timing", 0) = 1
      [] f = "one_tick" -> Get(r, "equal", 0) = 1
      [] f = "tier" -> r["reduced"] = 0 /\ r["level"] > 7
      [] f = "op_delay" -> Get(r, "display_delay", 0) = 1
      [] f = "op_delay_value" -> Get(r, "op_delay", 0) = 1
      [] f \in {"jnt", "ref_mvs", "hint_bits"} -> Get(r, "order_hint", 0) = 1
      [] f = "sct" -> Get(r, "choose_sct", 1) = 0
      [] f = "choose_imv" -> r["reduced"] = 0 /\ (Get(r, "choose_sct", 1) = 1 \/ Get(r, "sct", 0) > 0)
      [] f = "imv" -> Get(r, "choose_imv", 1) = 0
      [] f = "twelve" -> r["profile"] = 2 /\ r["high"] = 1
      [] f = "mono" -> r["profile"] # 1
      [] f \in {"cp", "tc", "mc"} -> r["has_color"] = 1
      [] f = "range" -> IsMono(r) \/ ~Srgb(r)
      [] f = "ssx" -> ~IsMono(r) /\ ~Srgb(r) /\ r["profile"] = 2 /\ Depth(r) = 12
      [] f = "ssy" -> Get(r, "ssx", 0) = 1
      [] f = "csp" -> ~IsMono(r) /\ ~Srgb(r) /\ Ssx(r) = 1 /\ Ssy(r) = 1
      [] f = "separate_uv" -> ~IsMono(r)
      [] OTHER -> TRUE

Width(r, f) ==
    CASE f = "profile" -> 3
      [] f \in {"tick_hi", "tick_lo", "scale_hi", "scale_lo"} -> 16
      [] f \in {"op_count", "level"} -> 5
      [] f = "op_idc" -> 12
      [] f \in {"op_delay_value", "wbits", "hbits"} -> 4
      [] f = "w" -> r["wbits"] + 1
      [] f = "h" -> r["hbits"] + 1
      [] f = "hint_bits" -> 3
      [] f \in {"cp", "tc", "mc"} -> 8
      [] f = "csp" -> 2
      [] OTHER -> 1

(* ---- reading ---- *)
NBits(b) == 8 * Len(b)
Bit(b, p) == (b[p \div 8 + 1] \div Pow2(7 - (p % 8))) % 2
RECURSIVE Val(_, _, _, _)
Val(b, p, n, v) == IF n = 0 THEN v ELSE Val(b, p + 1, n - 1, 2 * v + Bit(b, p))
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(b, p, r, i) ==
    IF i > Len(Order) THEN [r |-> r, p |-> p, ok |-> TRUE]
    ELSE IF ~Present(r, Order[i]) THEN ReadFrom(b, p, r, i + 1)
    ELSE LET n == Width(r, Order[i])
         IN IF p + n > NBits(b) THEN [r |-> r, p |-> p, ok |-> FALSE]
            ELSE ReadFrom(b, p + n, (Order[i] :> Val(b, p, n, 0)) @@ r, i + 1)
Read(b) == ReadFrom(b, 0, <<>>, 1)
\* after the fields come a one bit and zeros up to the end of the last byte
Trailing(b, p) == p < NBits(b) /\ Bit(b, p) = 1 /\ NBits(b) - p <= 8 /\ \A q \in p + 1..NBits(b) - 1 : Bit(b, q) = 0
Parses(b) == LET x == Read(b) IN x.ok /\ Trailing(b, x.p)

(* ---- writing ---- *)
RECURSIVE BitsOf(_, _)
BitsOf(v, n) == IF n = 0 THEN <<>> ELSE BitsOf(v \div 2, n - 1) \o <<v % 2>>
RECURSIVE WriteFrom(_, _, _)
WriteFrom(v, r, i) ==        \* v: every field of the stream to announce
    IF i > Len(Order) THEN <<>>
    ELSE IF ~Present(r, Order[i]) THEN WriteFrom(v, r, i + 1)
    ELSE BitsOf(v[Order[i]], Width(r, Order[i])) \o WriteFrom(v, (Order[i] :> v[Order[i]]) @@ r, i + 1)
RECURSIVE Bytes(_)
Bytes(s) == IF Len(s) = 0 THEN <<>>
            ELSE IF Len(s) < 8 THEN Bytes(s \o [j \in 1..8 - Len(s) |-> 0])
            ELSE <<128 * s[1] + 64 * s[2] + 32 * s[3] + 16 * s[4] + 8 * s[5] + 4 * s[6] + 2 * s[7] + s[8]>>
                 \o Bytes(SubSeq(s, 9, Len(s)))
Write(v) == Bytes(WriteFrom(v, <<>>, 1) \o <<1>>)

(* ---- what a configuration must announce ---- *)
Profile(c) == IF c.bd = 12 \/ c.cs = 422 THEN 2 ELSE IF c.cs = 444 THEN 1 ELSE 0
CSrgb(c) == c.color = <<1, 13, 0>>
B(x) == IF x THEN 1 ELSE 0
Announced(c) ==
    [ w |-> c.w, h |-> c.h, depth |-> c.bd, mono |-> B(c.cs = 400),
      ssx |-> B(c.cs # 444), ssy |-> B(c.cs \in {420, 400}),
      csp |-> IF c.cs = 420 THEN c.csp ELSE 0,
      range |-> B(c.full), color |-> IF c.color = <<>> THEN <<>> ELSE c.color,
      level |-> c.level, tier |-> 0, still |-> B(c.still), timing |-> IF c.timing THEN c.tb ELSE <<>>,
      grain |-> B(c.grain), profile |-> Profile(c) ]
Heard(r) ==
    [ w |-> r["w"] + 1, h |-> r["h"] + 1, depth |-> Depth(r), mono |-> Get(r, "mono", 0),
      ssx |-> Ssx(r), ssy |-> Ssy(r), csp |-> Get(r, "csp", 0),
      range |-> Get(r, "range", 1),
      color |-> IF r["has_color"] = 1 THEN <<r["cp"], r["tc"], r["mc"]>> ELSE <<>>,
      level |-> r["level"], tier |-> Get(r, "tier", 0), still |-> r["still"],
      timing |-> IF Get(r, "timing", 0) = 1 THEN <<r["tick_hi"], r["tick_lo"], r["scale_hi"], r["scale_lo"]>> ELSE <<>>,
      grain |-> r["grain"], profile |-> r["profile"] ]
\* one operating point that covers everything; a picture lasts one tick
Plain(r) == /\ Get(r, "op_count", 0) = 0 /\ Get(r, "op_idc", 0) = 0
            /\ Get(r, "decoder_model", 0) = 0 /\ Get(r, "frame_ids", 0) = 0
            /\ (Get(r, "timing", 0) = 1 => r["equal"] = 1 /\ r["one_tick"] = 1)
            /\ (r["reduced"] = 1 => r["still"] = 1)

(* ---- av1C configuration record (AV1 in ISOBMFF) ---- *)
Container(a) == << 129, 32 * a.profile + a.level,
                   128 * a.tier + 64 * B(a.depth > 8) + 32 * B(a.depth = 12) + 16 * a.mono + 8 * a.ssx + 4 * a.ssy + a.csp, 0 >>

(* ---- metadata OBU payloads: content light, mastering display ---- *)
RECURSIVE Halves(_)
Halves(v) == IF v = <<>> THEN <<>> ELSE <<v[1] \div 256, v[1] % 256>> \o Halves(Tail(v))
Metadata(c) == (IF c.cll = <<>> THEN {} ELSE {<<1>> \o Halves(c.cll) \o <<128>>})
          \cup (IF c.mdcv = <<>> THEN {} ELSE {<<2>> \o Halves(c.mdcv) \o <<128>>})

(* ---- display size: the longer side is stretched, rounded to a pixel ---- *)
Rounded(x, a, b, y) == LET d == 2 * (x * b - y * a) IN d <= b /\ -d <= b     \* x = round(y*a/b)
Display(c, rw, rh) == LET n == c.sar[1] m == c.sar[2]
                      IN IF n > m THEN Rounded(rw, n, m, c.w) /\ rh = c.h
                                  ELSE rw = c.w /\ Rounded(rh, m, n, c.h)

(***************************************************************************)
(* Events.  A session starts with event 1, o = "C": the configuration and  *)
(* the container headers from the direct, channel and C interfaces.  Then  *)
(* "P" for every packet: key, seqs (sequence headers), meta (HDR metadata),*)
(* sizes of its coded frames.  "E": the end.                               *)
(***************************************************************************)
H0 == [c |-> <<>>]
Rules16(g, e) ==
    CASE e.o = "C" -> <<
            <<"container-interfaces-differ", \A i \in 1..Len(e.conts) : e.conts[i] = e.conts[1]>>,
            <<"container-header", e.conts[1] = Container(Announced(e.c))>> >>
      [] e.o = "P" -> <<
            <<"sequence-header-with-keyframes", Len(e.seqs) = B(e.key)>>,
            <<"sequence-header-syntax", \A i \in 1..Len(e.seqs) : Parses(e.seqs[i])>>,
            <<"sequence-header-shape", \A i \in 1..Len(e.seqs) : Plain(Read(e.seqs[i]).r)>>,
            <<"sequence-header-announces-another-stream", \A i \in 1..Len(e.seqs) : Heard(Read(e.seqs[i]).r) = Announced(g.c)>>,
            <<"metadata", IF e.key THEN Len(e.meta) = Cardinality(Metadata(g.c)) /\ {e.meta[i] : i \in 1..Len(e.meta)} = Metadata(g.c)
                          ELSE e.meta = <<>> >>,
            <<"frame-size", \A i \in 1..Len(e.sizes) : e.sizes[i][1] = g.c.w /\ e.sizes[i][2] = g.c.h>>,
            <<"display-size", \A i \in 1..Len(e.sizes) : Display(g.c, e.sizes[i][3], e.sizes[i][4])>> >>
      [] OTHER -> << <<"run-fails", e.end = "LimitReached">> >>
Learn16(g, e) == IF e.o = "C" THEN [c |-> e.c] ELSE g
===============================================================================
