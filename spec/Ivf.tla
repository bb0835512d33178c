---------------------------------- MODULE Ivf ----------------------------------
(***************************************************************************)
(* IVF framing.  A file is a sequence of bytes: a 32-byte header and then  *)
(* one frame after the other, 12 bytes of frame header and the payload.    *)
(* All numbers are little-endian; 32- and 64-bit numbers are sequences of  *)
(* 16-bit halves, least significant first.                                 *)
(*   header  h = [w, h, num, den]   num/den: frame rate, two halves each   *)
(*   packet  p = [pts, data]        pts: four halves                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Le(_)
Le(v) == IF v = <<>> THEN <<>> ELSE <<v[1] % 256, v[1] \div 256>> \o Le(Tail(v))
DKIF == <<68, 75, 73, 70>>
AV01 == <<65, 86, 48, 49>>
Zeros(n) == [i \in 1..n |-> 0]
LenHalves(n) == <<n % 65536, n \div 65536>>

EncHeader(h) == DKIF \o Le(<<0, 32>>) \o AV01 \o Le(<<h.w, h.h>>) \o Le(h.num) \o Le(h.den) \o Zeros(8)
EncFrameHeader(pts, n) == Le(LenHalves(n)) \o Le(pts)
EncPacket(p) == EncFrameHeader(p.pts, Len(p.data)) \o p.data
RECURSIVE EncPackets(_)
EncPackets(ps) == IF ps = <<>> THEN <<>> ELSE EncPacket(Head(ps)) \o EncPackets(Tail(ps))
Encode(h, ps) == EncHeader(h) \o EncPackets(ps)

(* ---- reader: a state machine over the bytes, one call at a time ---- *)
Half(b, i) == b[i] + 256 * b[i + 1]
ReadHeader(b) ==
    IF Len(b) < 4 THEN [r |-> "eof"]
    ELSE IF SubSeq(b, 1, 4) # DKIF THEN [r |-> "bad"]
    ELSE IF Len(b) < 32 THEN [r |-> "eof"]
    ELSE [r |-> "hdr", tag |-> SubSeq(b, 9, 12), w |-> Half(b, 13), h |-> Half(b, 15),
          den |-> <<Half(b, 17), Half(b, 19)>>, num |-> <<Half(b, 21), Half(b, 23)>>]
ReadPacket(b, p) ==      \* p: bytes consumed so far
    IF Len(b) - p < 12 THEN [r |-> "eof"]
    ELSE LET n == Half(b, p + 1) + 65536 * Half(b, p + 3)
         IN IF Len(b) - p - 12 < n THEN [r |-> "eof"]
            ELSE [r |-> "pkt", pts |-> <<Half(b, p + 5), Half(b, p + 7), Half(b, p + 9), Half(b, p + 11)>>, data |-> SubSeq(b, p + 13, p + 12 + n)]
RECURSIVE ReadPackets(_, _)
ReadPackets(b, p) == LET x == ReadPacket(b, p)
                     IN IF x.r = "pkt" THEN <<x>> \o ReadPackets(b, p + 12 + Len(x.data)) ELSE <<x>>
\* reading header and packets until the first error
ReadAll(b) == LET x == ReadHeader(b) IN IF x.r = "hdr" THEN <<x>> \o ReadPackets(b, 32) ELSE <<x>>
Damaged(b, pos, v) == [b EXCEPT ![pos] = v]

(***************************************************************************)
(* Events: "W" what was written and the bytes; "T" what reading the first  *)
(* cut bytes gave; "X" what reading gave with one signature byte changed;  *)
(* "B" a packet with a large payload, of which only the frame header is    *)
(* recorded.                                                               *)
(***************************************************************************)
I0 == [bytes |-> <<>>]
\* the frame rate is the inverse of the time base
HeaderIs(h, x) == x.r = "hdr" /\ x.tag = AV01 /\ x.w = h.w /\ x.h = h.h /\ x.den = h.num /\ x.num = h.den
Rules13(g, e) ==
    CASE e.o = "W" -> <<
            <<"written-file", e.bytes = Encode(e.h, e.ps)>>,
            <<"header-reads-back", Len(e.res) > 0 /\ HeaderIs(e.h, e.res[1])>>,
            <<"packets-read-back", Len(e.res) = Len(e.ps) + 2 /\ \A i \in 1..Len(e.ps) : e.res[i + 1].r = "pkt" /\ e.res[i + 1].pts = e.ps[i].pts /\ e.res[i + 1].data = e.ps[i].data>>,
            <<"end-is-an-error", e.res[Len(e.res)].r = "eof">> >>
      [] e.o = "T" -> << <<"truncated-file", e.res = ReadAll(SubSeq(g.bytes, 1, e.cut))>> >>
      [] e.o = "X" -> << <<"damaged-signature", e.res = ReadAll(Damaged(g.bytes, e.pos, e.val))>> >>
      [] OTHER -> << <<"frame-header", e.fh = EncFrameHeader(e.pts, e.len)>>,
                     <<"large-payload", e.same>>,
                     <<"large-payload-reads-back", e.back.r = "pkt" /\ e.back.pts = e.pts /\ e.back.same>>,
                     <<"large-payload-cut", e.cut = "eof">> >>
Learn13(g, e) == IF e.o = "W" THEN [bytes |-> e.bytes] ELSE g
===============================================================================
