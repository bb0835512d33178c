----------------------------- MODULE TraceChannel -----------------------------
(* Recorded channel sessions beside the same frames on the direct interface.
   cfg: n frames offered, lim the frame limit, take packets after which the
   consumer leaves (-1: it stays), short whether the pass data runs out early,
   rlim records that may be sent, gop workers on groups of pictures;
   direct, drecs: packets and records of the direct interface.                *)
EXTENDS Naturals, Sequences, Json, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, g
vars == <<k, i, g>>
K0 == [acc |-> <<>>, off |-> 0, flushed |-> FALSE, pk |-> 0, rc |-> 0, rec |-> 0, over |-> FALSE, err |-> ""]
Fail(s, why) == [s EXCEPT !.err = IF @ = "" THEN why ELSE @]
Check(s, ok, why) == IF ok THEN s ELSE Fail(s, why)
Leaves(c) == c.take >= 0
MayEnd(c) == Leaves(c) \/ c.short
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ g = K0
(* the producer *)
Sent(c, s, e) ==
  LET t == [s EXCEPT !.off = @ + 1]
      a == Len(s.acc)
  IN Check(CASE e.r = "ok" -> IF a >= c.lim THEN Fail(t, "frame-limit-not-honoured")
                              ELSE IF s.flushed THEN Fail(t, "frame-taken-after-the-flush")
                              ELSE [t EXCEPT !.acc = Append(@, e.h)]
             [] e.r = "after" -> t
             [] e.r = "full" -> Check(t, a >= c.lim, "frame-refused")
             [] e.r = "disc" -> Check(t, a >= c.lim \/ s.flushed \/ MayEnd(c), "frame-refused")
             [] OTHER -> Fail(t, "unknown-answer"),
           e.i = s.off, "frames-offered-in-order")
Flushed(c, s, e) == Check([s EXCEPT !.flushed = TRUE], e.r = "ok" \/ MayEnd(c), "flush-refused")
Data(c, s, e) == Check([s EXCEPT !.rc = @ + (IF e.r = "ok" THEN 1 ELSE 0)],
                       IF e.r = "ok" THEN s.rc < c.rlim ELSE s.rc >= c.rlim \/ MayEnd(c), "pass-data-refused-or-over-the-limit")
(* the consumer *)
Packet(c, s, e) ==
  LET n == s.pk + 1
      t == [s EXCEPT !.pk = n]
  IN IF s.over THEN Fail(t, "packet-after-the-end")
     ELSE IF Leaves(c) /\ n > c.take THEN Fail(t, "packet-after-leaving")
     ELSE IF c.gop
     THEN IF n > Len(s.acc) THEN Fail(t, "more-packets-than-frames")
          ELSE Check(Check(Check(Check(t, e.no = n - 1, "display-number"), e.src = s.acc[n], "frame-of-the-packet"),
                           e.dec = <<e.rec>>, "decodable-stream"), n = 1 => e.ft = 0, "starts-with-a-keyframe")
     ELSE IF n > Len(c.direct) THEN Fail(t, "more-packets-than-the-direct-interface")
     ELSE LET d == c.direct[n]
          IN Check(Check(Check(Check(Check(Check(t, e.no = d.no, "packet-order"), e.hash = d.hash /\ e.len = d.len, "packet-bytes"),
                        e.ft = d.ft /\ e.qp = d.qp, "packet-type-and-quantizer"), e.opq = d.opq, "packet-opaque"),
                        e.rec = d.rec, "packet-reconstruction"), e.src = d.src, "packet-source")
End(c, s) == Check(Check([s EXCEPT !.over = TRUE], ~Leaves(c) \/ s.pk < c.take \/ c.take = 0, "ended-before-leaving"),
                   c.short \/ s.pk = (IF c.gop THEN Len(s.acc) ELSE Len(c.direct)), "stream-ended-early")
Record(c, s, e) == LET n == s.rec + 1
                       t == [s EXCEPT !.rec = n]
                   IN IF n > Len(c.drecs) THEN Fail(t, "more-records-than-the-direct-interface")
                      ELSE Check(t, e.rec = c.drecs[n], "statistics-record")
(* what must have been seen when everything has ended *)
Final(c, s) == LET t == Check(s, c.gop \/ Leaves(c) \/ Len(s.acc) = (IF c.n < c.lim THEN c.n ELSE c.lim) \/ c.short, "frames-not-taken")
               IN Check(Check(t, s.over \/ (Leaves(c) /\ s.pk = c.take), "session-cut-short"),
                        Leaves(c) \/ c.short \/ s.rec = Len(c.drecs), "statistics-records-missing")
Judge(c, s, e) == CASE e.o = "S" -> Sent(c, s, e)
                    [] e.o = "F" -> Flushed(c, s, e)
                    [] e.o = "D" -> Data(c, s, e)
                    [] e.o = "P" -> Packet(c, s, e)
                    [] e.o = "E" -> End(c, s)
                    [] e.o = "R" -> Record(c, s, e)
                    [] e.o = "C" -> Check(s, e.r = e.d, "creation-agrees")
                    [] e.o = "Z" -> Final(c, s)
                    [] e.o = "T" -> Fail(s, "stalls")
                    [] e.o = "X" -> Fail(s, "panics")
                    [] OTHER -> Fail(s, "unknown-event")
Step == /\ i <= Len(Sessions[k].ev)
        /\ LET e == Sessions[k].ev[i]
               n == Judge(Sessions[k].cfg, g, e)
           IN /\ g' = n
              /\ IF n.err # ""
                 THEN /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o n.err)
                      /\ i' = Len(Sessions[k].ev) + 2
                 ELSE /\ i' = i + 1
                      /\ IF i = Len(Sessions[k].ev)
                         THEN IF e.o = "Z" \/ (e.o = "C" /\ e.r # "ok") THEN PrintT("ACCEPT " \o ToString(k))
                              ELSE PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " session-cut-short")
                         ELSE TRUE
        /\ k' = k
TSpec == TInit /\ [][Step]_vars
===============================================================================
