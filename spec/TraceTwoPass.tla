----------------------------- MODULE TraceTwoPass ------------------------------
(* Conformance of recorded two-pass sessions with TwoPass.                   *)
EXTENDS TwoPass, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE FirstBroken(_, _)
FirstBroken(R, i) == IF i > Len(R) THEN "" ELSE IF R[i][2] THEN FirstBroken(R, i + 1) ELSE R[i][1]

VARIABLES k, i, s
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ s = Init0
TNext ==
    /\ i <= Len(Sessions[k].ev)
    /\ k' = k
    /\ LET e == Sessions[k].ev[i]
           dmg == e.o \in {"D", "W"}
           b == FirstBroken(IF dmg THEN Rules10d(e) ELSE Rules10(s, e), 1)
       IN IF b = ""
          THEN /\ i' = i + 1
               /\ s' = IF dmg THEN s ELSE Apply(s, e)
               /\ IF i = Len(Sessions[k].ev)
                  THEN IF e.o \in {"E", "D", "W"} THEN PrintT("ACCEPT " \o ToString(k))
                       ELSE PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " session-cut-short")
                  ELSE TRUE
          ELSE /\ i' = Len(Sessions[k].ev) + 2 /\ s' = s
               /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o b)
TSpec == TInit /\ [][TNext]_<<k, i, s>>
===============================================================================
