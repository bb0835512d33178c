------------------------------- MODULE TraceApi -------------------------------
(***************************************************************************)
(* Conformance of recorded executions of the real encoder with EncoderApi. *)
(* Each line of the trace file is one session [id, cfg, ev].  Every        *)
(* session is stepped through Apply; an event the selected property's      *)
(* rules refuse is reported and ends the session.                          *)
(***************************************************************************)
EXTENDS EncoderApi, Json, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

RulesOf(c, s, e) == CASE Prop = "C01" -> Rules01(c, s, e)
                      [] Prop = "C02" -> Rules02(c, s, e)
                      [] Prop = "C03" -> Rules03(c, s, e)
                      [] Prop = "C04" -> Rules04(c, s, e)

VARIABLES k, i, s
vars == <<k, i, s>>

TInit == k \in 1..Len(Sessions) /\ i = 1 /\ s = Init0

Step == /\ i <= Len(Sessions[k].ev)
        /\ LET e == Sessions[k].ev[i]
               c == Sessions[k].cfg
               R == RulesOf(c, s, e)
           IN IF Ok(R)
              THEN /\ s' = Apply(c, s, e)
                   /\ i' = i + 1
                   /\ IF i = Len(Sessions[k].ev)
                      THEN IF e.o = "E" THEN PrintT("ACCEPT " \o ToString(k))
                           ELSE PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " session-cut-short")
                      ELSE TRUE
              ELSE /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o Broken(R))
                   /\ s' = s
                   /\ i' = Len(Sessions[k].ev) + 2
        /\ k' = k
TNext == Step
TSpec == TInit /\ [][TNext]_vars
===============================================================================
