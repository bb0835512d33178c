------------------------------ MODULE TraceDecode -----------------------------
(* Recorded encodes with the answers of two independent decoders.          *)
EXTENDS DecoderAgreement, Json, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, a
vars == <<k, i, a>>
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ a = A0

Judge(c, e) == CASE e.o = "R" /\ e.r = "pkt" -> Packet(c, a, e)
                 [] e.o = "E" -> Check(a, e.del = e.acc, "every-frame-delivered")
                 [] OTHER -> Fail(a, "no-panic")

Step == /\ i <= Len(Sessions[k].ev)
        /\ LET e == Sessions[k].ev[i]
               n == Judge(Sessions[k].cfg, e)
           IN /\ a' = n
              /\ IF n.err # ""
                 THEN /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o n.err)
                      /\ i' = Len(Sessions[k].ev) + 2
                 ELSE /\ i' = i + 1
                      /\ IF i = Len(Sessions[k].ev)
                         THEN IF e.o = "E" THEN PrintT("ACCEPT " \o ToString(k))
                              ELSE PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " session-cut-short")
                         ELSE TRUE
        /\ k' = k
TSpec == TInit /\ [][Step]_vars
===============================================================================
