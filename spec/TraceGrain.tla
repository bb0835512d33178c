------------------------------ MODULE TraceGrain ------------------------------
(* Recorded encodes with a grain table, decoded by dav1d.                  *)
EXTENDS GrainTable, Json, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, g
vars == <<k, i, g>>
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ g = K0
Judge(c, e) == CASE e.o = "P" -> Packet(c, g, e)
                 [] e.o = "C" -> Create(c, g, e.r)
                 [] e.o = "E" -> Check(Check(g, e.end = "ok", "encode-ends"), e.na = e.nb /\ e.na = g.n, "same-number-of-pictures")
                 [] OTHER -> Fail(g, "unknown-event")
Step == /\ i <= Len(Sessions[k].ev)
        /\ LET e == Sessions[k].ev[i]
               n == Judge(Sessions[k].cfg, e)
           IN /\ g' = n
              /\ IF n.err # ""
                 THEN /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o n.err)
                      /\ i' = Len(Sessions[k].ev) + 2
                 ELSE /\ i' = i + 1
                      /\ IF i = Len(Sessions[k].ev)
                         THEN IF e.o = "E" \/ (e.o = "C" /\ e.r # "ok") THEN PrintT("ACCEPT " \o ToString(k))
                              ELSE PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " session-cut-short")
                         ELSE TRUE
        /\ k' = k
TSpec == TInit /\ [][Step]_vars
===============================================================================
