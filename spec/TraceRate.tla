------------------------------- MODULE TraceRate -------------------------------
EXTENDS RateBounds, Json, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE FirstBroken(_, _)
FirstBroken(R, i) == IF i > Len(R) THEN "" ELSE IF R[i][2] THEN FirstBroken(R, i + 1) ELSE R[i][1]
VARIABLES k, i, g
vars == <<k, i, g>>
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ g = G0
Step == /\ i <= Len(Sessions[k].ev)
        /\ LET e == Sessions[k].ev[i]
               why == FirstBroken(Rules11(g, e), 1)
           IN /\ g' = Learn(g, e)
              /\ IF why # ""
                 THEN /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o why)
                      /\ i' = Len(Sessions[k].ev) + 2
                 ELSE /\ i' = i + 1
                      /\ IF i = Len(Sessions[k].ev) THEN PrintT("ACCEPT " \o ToString(k)) ELSE TRUE
        /\ k' = k
TSpec == TInit /\ [][Step]_vars
===============================================================================
