------------------------------ MODULE PipelineGen -----------------------------
(***************************************************************************)
(* Generates call schedules together with the answers the pipeline model   *)
(* predicts, by random simulation (tlc -simulate) of a caller that also    *)
(* polls too often, flushes twice and sends after the flush.  JOBS is a    *)
(* file of configurations; each behaviour is printed as one JSON line.     *)
(***************************************************************************)
EXTENDS FramePipeline, Json, TLC, IOUtils

Jobs == ndJsonDeserialize(IOEnv.JOBS)
ToSet(q) == {q[i] : i \in 1..Len(q)}

VARIABLES k, p, h, poll, extra, mode
vars == <<k, p, h, poll, extra, mode>>
C == [Jobs[k] EXCEPT !.cuts = ToSet(@)]
Forced == ToSet(Jobs[k].key)

\* mode biases the caller: eager (polls after every send), greedy (sends
\* everything first), mixed
Init == /\ k \in 1..Len(Jobs) /\ p = P0 /\ h = <<>> /\ poll = 0 /\ extra = 0
        /\ mode \in {"eager", "greedy", "mixed", "mixed"}

Log(o, r, no) == h' = Append(h, [o |-> o, r |-> r, no |-> no])

Send == /\ p.limit = -1 /\ p.count < C.n
        /\ (mode = "eager" => poll >= 1)
        /\ IF SendOk(C, p)
           THEN p' = SendP(C, p, p.count \in Forced) /\ Log("S", "ok", 0) /\ extra' = extra
           ELSE p' = p /\ extra < 3 /\ extra' = extra + 1 /\ Log("S", "EnoughData", 0)
        /\ poll' = 0 /\ UNCHANGED <<k, mode>>
LateSend == /\ p.limit >= 0 /\ extra < 3 /\ extra' = extra + 1
            /\ Log("S", "EnoughData", 0) /\ UNCHANGED <<k, p, poll, mode>>
Flush == /\ (p.limit = -1 => p.count >= C.n \/ (C.still = 1 /\ p.count = 1 /\ extra >= 1))
         /\ (p.limit >= 0 => extra < 3)
         /\ extra' = IF p.limit >= 0 THEN extra + 1 ELSE extra
         /\ p' = FlushP(C, p) /\ Log("F", "ok", 0) /\ poll' = 0 /\ UNCHANGED <<k, mode>>
Recv == LET v == RecvP(C, p) idle == v.r \in {"NeedMoreData", "LimitReached"} IN
        /\ (mode = "greedy" => p.limit >= 0)
        /\ (idle => poll < 2)
        /\ p' = v.p
        /\ poll' = IF idle THEN poll + 1 ELSE 0
        /\ Log("R", v.r, IF v.r = "pkt" THEN v.f.in ELSE 0)
        /\ UNCHANGED <<k, extra, mode>>
Done == /\ p.limit >= 0 /\ p.done = p.count /\ poll = 2
Finish == /\ Done /\ mode # "end"
          /\ PrintT("GEN " \o ToJson([k |-> k, h |-> h]))
          /\ mode' = "end" /\ UNCHANGED <<k, p, h, poll, extra>>
Next == mode # "end" /\ (Finish \/ (~Done /\ (Send \/ LateSend \/ Flush \/ Recv)))
Spec == Init /\ [][Next]_vars
===============================================================================
