------------------------------ MODULE TraceStream -----------------------------
(***************************************************************************)
(* Conformance of recorded streams (parsed by the independent OBU parser)  *)
(* with Av1Stream.                                                         *)
(***************************************************************************)
EXTENDS Av1Stream, Json, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, d, recs
vars == <<k, i, d, recs>>

TInit == k \in 1..Len(Sessions) /\ i = 1 /\ d = D0 /\ recs = <<>>

Judge(c, e) ==
    CASE e.o = "R" /\ e.r = "pkt" -> TU(c, d, e)
      [] e.o = "RA" -> IF RaOk(recs, e) THEN d ELSE Fail(d, "random-access")
      [] e.o = "E" -> d
      [] OTHER -> Fail(d, "no-panic")

Step == /\ i <= Len(Sessions[k].ev)
        /\ LET e == Sessions[k].ev[i]
               n == Judge(Sessions[k].cfg, e)
           IN /\ d' = n
              /\ recs' = IF e.o = "R" /\ e.r = "pkt" THEN Append(recs, e.rec) ELSE recs
              /\ IF n.err # ""
                 THEN /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o n.err)
                      /\ i' = Len(Sessions[k].ev) + 2
                 ELSE /\ i' = i + 1
                      /\ IF i = Len(Sessions[k].ev)
                         THEN IF e.o = "E" THEN PrintT("ACCEPT " \o ToString(k))
                              ELSE PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " session-cut-short")
                         ELSE TRUE
        /\ k' = k
TSpec == TInit /\ [][Step]_vars
===============================================================================
