------------------------------ MODULE PipelineMC ------------------------------
(***************************************************************************)
(* Every caller of the pipeline: each configuration in the bounds, each    *)
(* set of scene cuts and requested keyframes, each interleaving of sends,  *)
(* receives and one flush.  Checked: the pipeline refines EncoderApi       *)
(* (every step is one the contract allows), the decoder-side slot machine  *)
(* agrees with the slots used, and it cannot stall.                        *)
(***************************************************************************)
EXTENDS FramePipeline, TLC

CONSTANTS MaxN, LAs, LLs, MinKfs, MaxKfs, Scds, Slk, MaxRecv

Api == INSTANCE EncoderApi WITH Slack <- Slk, MaxEncoded <- 4

VARIABLES c, p, s, ok, slots, rcv
vars == <<c, p, s, ok, slots, rcv>>

Cfgs == { [la |-> la, ll |-> ll, still |-> 0, minkf |-> mi, maxkf |-> ma, scd |-> sc,
           cuts |-> cu, switch |-> 0, drain |-> 1] :
          la \in LAs, ll \in LLs, mi \in MinKfs, ma \in MaxKfs, sc \in Scds,
          cu \in {{}, {3}, {4}, {5, 6}} }

Init == /\ c \in Cfgs /\ p = P0 /\ s = Api!Init0 /\ ok = TRUE
        /\ slots = [i \in 0..7 |-> -1] /\ rcv = 0

\* the picture digest the contract sees: scene cuts make pictures differ, and so does every frame
Dig(n) == ToString(n)

Observe(e) == /\ ok' = (Api!Ok(Api!Rules01(c, s, e)) /\ Api!Ok(Api!Rules02(c, s, e)) /\ Api!Ok(Api!Rules04(c, s, e)))
              /\ s' = Api!Apply(c, s, e)

Send == \E forced \in {TRUE, FALSE} :
        /\ p.count < MaxN /\ SendOk(c, p)
        /\ p' = SendP(c, p, forced)
        /\ Observe([o |-> "S", r |-> "ok", key |-> IF forced THEN 1 ELSE 0, opq |-> -1, t35 |-> <<>>, h |-> Dig(p.count)])
        /\ rcv' = 0
        /\ UNCHANGED <<c, slots>>
Flush == /\ p.limit = -1 /\ p' = FlushP(c, p)
         /\ Observe([o |-> "F", r |-> "ok"]) /\ rcv' = 0 /\ UNCHANGED <<c, slots>>
Recv == LET v == RecvP(c, p)
            f == v.f
        IN /\ (v.r \in {"NeedMoreData", "LimitReached"} => rcv < MaxRecv)
           /\ rcv' = IF v.r \in {"NeedMoreData", "LimitReached"} THEN rcv + 1 ELSE 0
           /\ p' = v.p
           /\ Observe(IF v.r = "pkt"
                      THEN [o |-> "R", r |-> "pkt", no |-> f.in, ft |-> IF f.k = "key" THEN 0 ELSE 1, opq |-> -1]
                      ELSE [o |-> "R", r |-> v.r])
           \* decoder slots hold input numbers: a key fills all, a coded frame its slot
           /\ slots' = IF v.r \in {"pkt", "Encoded"}
                       THEN IF f.k = "key" THEN [i \in 0..7 |-> f.in]
                            ELSE IF f.sef THEN slots ELSE [slots EXCEPT ![f.slot] = f.in]
                       ELSE slots
           /\ UNCHANGED c
Next == Send \/ Flush \/ Recv
Spec == Init /\ [][Next]_vars

Refines == ok
\* a show-existing frame shows what a decoder holds in that slot
SefSound == \A x \in p.out..(Len(p.fd) - 1) :
               (x = p.out /\ p.fd[x + 1].sef) => slots[p.fd[x + 1].slot] = p.fd[x + 1].in
\* flushed and drained as far as it goes means everything came out
NoStall == (p.limit >= 0 /\ RecvP(c, p).r \in {"NeedMoreData", "LimitReached"}) => p.done = p.count
Bounded == Len(s.q) <= MaxN
NeedMoreBound == RecvP(c, p).r = "NeedMoreData" => Len(s.q) <= c.la + Slk
===============================================================================
