------------------------------- MODULE TwoPassMC -------------------------------
(***************************************************************************)
(* An abstract encoder obeying the statistics protocol, driven by any      *)
(* caller through a first and a second pass.  The first pass chooses how   *)
(* frames are coded (hidden frames are shown later from memory, at most    *)
(* MaxHidden at a time); the second pass codes the same way.  Checked: the *)
(* rules hold, the second pass never waits for records that do not exist,  *)
(* and the window of records never outgrows the ring it is kept in.        *)
(***************************************************************************)
EXTENDS TwoPass, Json, IOUtils

CONSTANTS MaxTus, MaxHidden, Delays, Emit2, Hist

VARIABLES s, plan, hid, ph, ops, fin
vars == <<s, plan, hid, ph, ops, fin>>

RECURSIVE AllHold(_, _)
AllHold(R, i) == IF i > Len(R) THEN TRUE
                 ELSE IF R[i][2] THEN AllHold(R, i + 1)
                 ELSE Assert(FALSE, "rule broken: " \o R[i][1])

\* every step the model takes satisfies the rules
Do(e) == /\ AllHold(Rules10(s, e), 1)
         /\ s' = Apply(s, e)
         /\ ops' = IF Hist THEN ops \o e.o ELSE ops

MInit == /\ s = Apply(Init0, [o |-> "N", c |-> [emit |-> 1, second |-> 0, delay |-> 0, head |-> 1]])
         /\ plan = <<>> /\ hid = 0 /\ ph = 1 /\ ops = "" /\ fin = FALSE

Ready == /\ (s.c.emit = 1 => ~s.pend)
         /\ (s.c.second = 1 => Need(s) = 0)

\* choices of the next coded frame
Kinds == { k \in [fti : 0..4, show : {0, 1}] :
             /\ (k.fti = 4 => k.show = 1 /\ hid > 0)
             /\ (k.fti = 0 => k.show = 1 /\ hid = 0)
             /\ (k.show = 0 => hid < MaxHidden)
             /\ (plan = <<>> => k.fti = 0) }

Keep == UNCHANGED <<ph, fin>>
Send == /\ s.acc < (IF ph = 1 THEN MaxTus ELSE s.acc0) /\ ~s.fl
        /\ Do([o |-> "S", r |-> "ok"]) /\ Keep /\ UNCHANGED <<plan, hid>>
Flush == /\ ~s.fl /\ s.acc > 0 /\ (ph = 2 => s.acc = s.acc0)
         /\ Do([o |-> "F", r |-> "ok"]) /\ Keep /\ UNCHANGED <<plan, hid>>
Code(k) == /\ Do([o |-> "R", r |-> IF k.show = 1 THEN "pkt" ELSE "Encoded",
                  sef |-> IF k.fti = 4 THEN 1 ELSE 0, key |-> IF k.fti = 0 THEN 1 ELSE 0])
           /\ hid' = hid + (IF k.show = 0 THEN 1 ELSE IF k.fti = 4 THEN -1 ELSE 0)
           /\ Keep
Idle(r) == Do([o |-> "R", r |-> r, sef |-> 0, key |-> 0]) /\ Keep /\ UNCHANGED <<plan, hid>>
\* frames sent but not shown, less those a hidden frame stands for; until the flush
\* the encoder looks at least one frame ahead
Room == s.acc - s.del - hid - (IF s.fl THEN 0 ELSE 1)
Recv == IF Done(s) THEN Idle("LimitReached")
        ELSE IF Room <= 0 /\ hid = 0 THEN Idle("NeedMoreData")
        ELSE IF ~Ready THEN Idle("NotReady")
        ELSE IF ph = 1
             THEN \/ \E k \in Kinds : /\ (k.fti # 4 => Room > 0)
                                      /\ Code(k) /\ plan' = Append(plan, k)
                  \/ ~s.fl /\ Idle("NeedMoreData")
             ELSE LET k == s.prev[s.coded + 1]
                  IN IF k.fti # 4 /\ Room <= 0 THEN Idle("NeedMoreData")
                     ELSE Code(k) /\ UNCHANGED plan
Take == LET r == IF s.pend THEN "frame" ELSE IF Done(s) THEN "summary" ELSE "none"
            k == IF ph = 1 THEN plan[s.coded] ELSE s.prev[s.coded]
        IN /\ s.c.emit = 1 /\ (r = "summary" => s.sums = 0)
           /\ Do([o |-> "G", r |-> r, len |-> HEAD,
                  rec |-> IF r = "frame" THEN [len |-> PACK, fti |-> k.fti, show |-> k.show] ELSE [len |-> 0],
                  sum |-> [ntus |-> Ntus(s.recs), nframes |-> [t \in 1..5 |-> Count(s.recs, t - 1)],
                           exp |-> <<1, 1, 1, 1>>, zero |-> <<1, 1, 1, 1>>]])
           /\ Keep /\ UNCHANGED <<plan, hid>>
Ask == /\ ph = 2 /\ Do([o |-> "Q", n |-> Need(s), r |-> "ok"]) /\ Keep /\ UNCHANGED <<plan, hid>>
Supply == /\ ph = 2 /\ Need(s) > 0
          /\ Do([o |-> "I", r |-> "ok"]) /\ Keep /\ UNCHANGED <<plan, hid>>
Damaged == /\ ph = 2 /\ Hist /\ Do([o |-> "B", r |-> "Failure"]) /\ Keep /\ UNCHANGED <<plan, hid>>
Turn == /\ ph = 1 /\ Done(s) /\ ~s.pend /\ s.sums > 0 /\ hid = 0
        /\ \E d \in Delays, m \in Emit2 : Do([o |-> "N", r |-> "ok", c |-> [emit |-> m, second |-> 1, delay |-> d, head |-> 1]])
        /\ ph' = 2 /\ UNCHANGED <<plan, hid, fin>>
End == /\ ph = 2 /\ Done(s) /\ ~fin /\ fin' = TRUE
       /\ (IF Hist THEN PrintT("GEN " \o ToJson([ops |-> ops, d |-> s.c.delay, m |-> s.c.emit])) ELSE TRUE)
       /\ Do([o |-> "E", r |-> "ok"]) /\ UNCHANGED <<plan, hid, ph>>

MNext == ~fin /\ (Send \/ Flush \/ Recv \/ Take \/ Ask \/ Supply \/ Damaged \/ Turn \/ End)
MSpec == MInit /\ [][MNext]_vars

----------------------------------------------------------------------------
NeverBeyond == s.c.second = 1 /\ s.coded < Total(s) => Need(s) <= Total(s) - s.sup
\* a waiting second pass can always be served
Served == s.c.second = 1 /\ ~Done(s) /\ s.coded < Total(s) /\ Need(s) > 0 => s.sup < Total(s)
RingFits == s.c.second = 1 /\ s.c.delay # 0 => s.sup - s.coded <= 2 * s.c.delay + 8
CodesAll == s.c.second = 1 /\ Done(s) => s.coded = Total(s)
===============================================================================
