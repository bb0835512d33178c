------------------------------ MODULE TraceReport -----------------------------
(* Recorded runs judged by Report: what was made and what was said of it.    *)
EXTENDS Report, Json, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
Set(s) == { s[x] : x \in DOMAIN s }
After(g, e) ==
    CASE e.o = "begin" -> Begin(e.cfg)
      [] e.o = "P" -> Made(g, e)
      [] e.o = "L" -> Told(g, e)
      [] e.o = "last" -> Last(g, e)
      [] e.o = "row" -> Row(g, e)
      [] e.o = "mean" -> Mean(g, e)
      [] e.o = "tab" -> Table(g, e)
      [] e.o = "set" -> Settings(g, e)
      [] e.o = "end" -> End(g, e)
      [] e.o = "A" -> SelfTold(g, [e EXCEPT !.sizes = Set(@)])

VARIABLES k, i, l
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ l = Lg0
TNext ==
    /\ i <= Len(Sessions[k].ev)
    /\ k' = k
    /\ LET m == After(l, Sessions[k].ev[i])
       IN IF m.err = ""
          THEN /\ i' = i + 1 /\ l' = m
               /\ IF i = Len(Sessions[k].ev) THEN PrintT("ACCEPT " \o ToString(k)) ELSE TRUE
          ELSE /\ i' = Len(Sessions[k].ev) + 2 /\ l' = Lg0
               /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o m.err)
TSpec == TInit /\ [][TNext]_<<k, i, l>>
===============================================================================
