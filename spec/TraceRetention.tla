---------------------------- MODULE TraceRetention ----------------------------
(* Recorded sessions judged by Retention: what was held after every call.    *)
EXTENDS Retention, Json, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
Set(s) == { s[x] : x \in DOMAIN s }

After(l, e) ==
    CASE e.o = "S" -> LET m == Send(l, e.r = "ok", e.no, e.tag = 1) IN Holding(m, Set(e.held), e.opq)
      [] e.o = "R" -> LET m == IF e.r = "pkt" THEN Deliver(l, e.no) ELSE l IN Holding(m, Set(e.held), e.opq)
      [] e.o = "D" -> Gone(l, Set(e.held), e.opq)
      [] e.o = "H" -> Check(Check(l, Steady(e.heap), "memory-grows-with-the-stream"),
                            e.before < 0 \/ Clean(e.before, e.after, e.threads), "memory-leaked")

VARIABLES k, i, l
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ l = L0
TNext ==
    /\ i <= Len(Sessions[k].ev)
    /\ k' = k
    /\ LET m == After(l, Sessions[k].ev[i])
       IN IF m.err = ""
          THEN /\ i' = i + 1 /\ l' = m
               /\ IF i = Len(Sessions[k].ev) THEN PrintT("ACCEPT " \o ToString(k)) ELSE TRUE
          ELSE /\ i' = Len(Sessions[k].ev) + 2 /\ l' = L0
               /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o m.err)
TSpec == TInit /\ [][TNext]_<<k, i, l>>
===============================================================================
