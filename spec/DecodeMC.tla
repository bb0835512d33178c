-------------------------------- MODULE DecodeMC ------------------------------
(***************************************************************************)
(* Encoder and decoder as two machines joined by the packet queue.  The    *)
(* samples of a picture are a function of what is coded (the source frame),*)
(* the samples of the references it names and the entropy contexts it      *)
(* starts from; each side evaluates that function on its own store.  For   *)
(* every group structure the pipeline model produces, every placement of   *)
(* keyframes and every lag of the decoder, the decoder's displayed picture *)
(* is the encoder's reconstruction.                                        *)
(***************************************************************************)
EXTENDS FramePipeline, TLC

CONSTANTS MaxN, MaxLag

G == INSTANCE DecoderAgreement

VARIABLES c, p,
          enc,      \* encoder's picture store: slot -> value
          tu,       \* frames of the packet under construction
          q,        \* packets sent and not decoded: <<[frames, rec]>>
          dec,      \* decoder's picture store
          agree     \* judgement of the stream so far
vars == <<c, p, enc, tu, q, dec, agree>>

Cfgs == { [la |-> 1, ll |-> ll, still |-> 0, minkf |-> 0, maxkf |-> ma, scd |-> 0, cuts |-> {}, switch |-> 0, er |-> er] :
          ll \in {0, 1}, ma \in {0, 3, 5}, er \in {0, 1} }
None == <<"none">>
Init == /\ c \in Cfgs /\ p = P0 /\ enc = [i \in 0..7 |-> None] /\ dec = [i \in 0..7 |-> None]
        /\ tu = <<>> /\ q = <<>> /\ agree = G!A0

Lvl(x) == IF c.ll = 1 \/ x % 4 = 0 THEN 0 ELSE IF x % 2 = 0 THEN 1 ELSE 2
SlotOf(x) == IF Lvl(x) = 0 THEN (x \div Pow(PD(c))) % 4 ELSE 3 + Lvl(x)
RefSlots(f) == IF f.lvl = 0 THEN <<(f.slot + 3) % 4, (f.slot + 2) % 4>>
               ELSE LET step == GIL(c) \div Pow(f.lvl) IN <<SlotOf(f.oh - step), SlotOf(f.oh + step)>>

\* coded frame as it is written: what to predict from, what to replace
Coded(f) == IF f.sef THEN [se |-> 1, idx |-> f.slot, show |-> 0, refresh |-> <<>>, src |-> -1, refs |-> <<>>, ctx |-> -1]
            ELSE IF f.k = "key"
            THEN [se |-> 0, idx |-> 0, show |-> 1, refresh |-> <<0,1,2,3,4,5,6,7>>, src |-> f.in, refs |-> <<>>, ctx |-> -1]
            ELSE [se |-> 0, idx |-> 0, show |-> IF f.show THEN 1 ELSE 0, refresh |-> <<f.slot>>, src |-> f.in,
                  refs |-> RefSlots(f), ctx |-> IF c.er = 1 THEN -1 ELSE RefSlots(f)[1]]

Value(st, w) == <<"pic", w.src, [j \in 1..Len(w.refs) |-> st[w.refs[j]]], IF w.ctx < 0 THEN None ELSE st[w.ctx]>>
Put(st, w, v) == [i \in 0..7 |-> IF \E j \in 1..Len(w.refresh) : w.refresh[j] = i THEN v ELSE st[i]]

Send == \E forced \in {TRUE, FALSE} :
        /\ p.count < MaxN /\ p.limit = -1
        /\ p' = SendP(c, p, forced) /\ UNCHANGED <<c, enc, tu, q, dec, agree>>
Flush == p.limit = -1 /\ p.count > 0 /\ p' = FlushP(c, p) /\ UNCHANGED <<c, enc, tu, q, dec, agree>>
Recv == /\ p.limit >= 0 /\ Len(q) < MaxLag
        /\ LET v == RecvP(c, p)
               w == Coded(v.f)
               val == Value(enc, w)
           IN /\ v.r \in {"pkt", "Encoded"}
              /\ p' = v.p
              /\ enc' = IF w.se = 1 THEN enc ELSE Put(enc, w, val)
              /\ IF v.r = "pkt"
                 THEN /\ q' = Append(q, [frames |-> Append(tu, w), rec |-> IF w.se = 1 THEN enc[w.idx] ELSE val])
                      /\ tu' = <<>>
                 ELSE q' = q /\ tu' = Append(tu, w)
        /\ UNCHANGED <<c, dec, agree>>

RECURSIVE Run(_, _, _)
\* decoder: frames of a packet in order; yields [st, shown]
Run(st, fs, out) ==
    IF fs = <<>> THEN [st |-> st, out |-> out]
    ELSE LET w == fs[1]
         IN IF w.se = 1 THEN Run(st, Tail(fs), Append(out, st[w.idx]))
            ELSE LET v == Value(st, w)
                 IN Run(Put(st, w, v), Tail(fs), IF w.show = 1 THEN Append(out, v) ELSE out)
Decode == /\ q # <<>>
          /\ LET r == Run(dec, q[1].frames, <<>>)
                 \* samples as text, so that they compare with "not seen"
                 rec == ToString(q[1].rec)
             IN /\ dec' = r.st
                /\ agree' = G!Packet([w |-> 0, h |-> 0, bpc |-> 0, layout |-> 0], agree,
                              [rec |-> rec, frames |-> q[1].frames,
                               dec |-> << [e |-> 0, n |-> Len(r.out), h |-> [j \in 1..Len(r.out) |-> ToString(r.out[j])], fmt |-> <<>>] >>])
                /\ q' = Tail(q)
          /\ UNCHANGED <<c, p, enc, tu>>
Next == Send \/ Flush \/ Recv \/ Decode
Spec == Init /\ [][Next]_vars
Agreement == agree.err = ""
===============================================================================
