------------------------------ MODULE TraceTiling -----------------------------
(* Layouts computed by the real code, and layouts read back from the frame *)
(* headers it writes.                                                      *)
EXTENDS Tiling, Json, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, lay
vars == <<k, i, lay>>
NoLay == [cols |-> 0, rows |-> 0, tw |-> 0, th |-> 0, cl |-> 0, rl |-> 0]
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ lay = NoLay

\* layout seen by a decoder: tile boundaries in superblocks
HeaderBad(q, t, e) ==
    LET s == Std(q.w, q.h)
    IN CASE ~(e.cols = [x \in 1..(t.cols + 1) |-> Min((x - 1) * t.tw, s.sc)]) -> "decoder-columns"
         [] ~(e.rows = [x \in 1..(t.rows + 1) |-> Min((x - 1) * t.th, s.sr)]) -> "decoder-rows"
         [] ~(e.ctx < t.cols * t.rows) -> "context-tile"
         [] OTHER -> ""

Why(e) == CASE e.r # "ok" -> "layout-fails"
            [] e.o = "T" -> Bad(e.q, e.t)
            [] e.o = "H" -> HeaderBad(e.q, lay, e)
            [] e.o = "D" -> IF e.dec = "ok" THEN "" ELSE "decoder-rejects-layout"

Step == /\ i <= Len(Sessions[k].ev)
        /\ LET e == Sessions[k].ev[i]
               why == Why(e)
           IN /\ lay' = IF e.o = "T" /\ e.r = "ok" THEN e.t ELSE lay
              /\ IF why # ""
                 THEN /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o why)
                      /\ i' = Len(Sessions[k].ev) + 2
                 ELSE /\ i' = i + 1
                      /\ IF i = Len(Sessions[k].ev) THEN PrintT("ACCEPT " \o ToString(k))
                         ELSE IF e.o = "T" /\ e.t # Layout(e.q) THEN PrintT("DRIFT " \o ToString(k) \o " " \o ToString(i))
                         ELSE TRUE
        /\ k' = k
TSpec == TInit /\ [][Step]_vars
===============================================================================
