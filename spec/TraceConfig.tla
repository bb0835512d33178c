------------------------------ MODULE TraceConfig ------------------------------
(* Conformance of recorded answers to configurations with ConfigRules.       *)
EXTENDS ConfigRules, Json, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE FirstBroken(_, _)
FirstBroken(R, i) == IF i > Len(R) THEN "" ELSE IF R[i][2] THEN FirstBroken(R, i + 1) ELSE R[i][1]

VARIABLES k, i
TInit == k \in 1..Len(Sessions) /\ i = 1
TNext ==
    /\ i <= Len(Sessions[k].ev)
    /\ k' = k
    /\ LET b == FirstBroken(Rules09(Sessions[k].ev[i]), 1)
       IN IF b = ""
          THEN /\ i' = i + 1
               /\ IF i = Len(Sessions[k].ev) THEN PrintT("ACCEPT " \o ToString(k)) ELSE TRUE
          ELSE /\ i' = Len(Sessions[k].ev) + 2
               /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o b)
TSpec == TInit /\ [][TNext]_<<k, i>>
===============================================================================
