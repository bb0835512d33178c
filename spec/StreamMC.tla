------------------------------- MODULE StreamMC -------------------------------
(***************************************************************************)
(* The pipeline model emitting frame headers (reference slots, refresh     *)
(* sets, order hints as in FrameInvariants::new_inter_frame), judged by    *)
(* the decoder-side machine: for every placement of requested keyframes,   *)
(* every stream length, with and without re-ordering, error resilience and *)
(* switch frames, each temporal unit is one the stream rules allow.        *)
(***************************************************************************)
EXTENDS FramePipeline, TLC

CONSTANTS MaxN, MaxKfs, OHB

S == INSTANCE Av1Stream

VARIABLES c, p, tu, d
vars == <<c, p, tu, d>>

Cfgs == { [la |-> 1, ll |-> ll, still |-> 0, minkf |-> 0, maxkf |-> ma, scd |-> 0, cuts |-> {}, switch |-> sw,
           er |-> er, w |-> 16, h |-> 16, mr |-> mr] :
          ll \in {0, 1}, ma \in MaxKfs, sw \in {0, 2, 3}, er \in {0, 1}, mr \in {0, 1} }

Init == /\ c \in {x \in Cfgs : (x.switch > 0 => x.ll = 1) /\ (x.ll = 0 => x.mr = 1)}
        /\ p = P0 /\ d = S!D0 /\ tu = <<S!Obu0>>

Lvl(x) == IF c.ll = 1 \/ x % 4 = 0 THEN 0 ELSE IF x % 2 = 0 THEN 1 ELSE 2
SlotOf(x) == IF Lvl(x) = 0 THEN (x \div Pow(PD(c))) % 4 ELSE 3 + Lvl(x)

SwitchAt(og, f) == c.switch > 0 /\ og % c.switch = 0 /\ f.lvl = 0
Refs(f, ix) ==
    IF f.lvl = 0
    THEN LET prev == (f.slot + 3) % 4
             pp == (f.slot + 2) % 4
         IN [j \in 1..7 |-> IF c.mr = 1 /\ j = (IF ix = 0 THEN 2 ELSE 7) THEN pp ELSE prev]
    ELSE LET step == GIL(c) \div Pow(f.lvl)
             b == SlotOf(f.oh - step)
             fw == SlotOf(f.oh + step)
         IN [j \in 1..7 |-> IF j = 7 THEN fw ELSE IF j = 3 THEN f.slot ELSE b]

Header(f, og, dd) ==
    IF f.k = "key" THEN [S!Obu0 EXCEPT !.t = "frame", !.ft = 0, !.show = 1, !.er = 1, !.refresh = <<0,1,2,3,4,5,6,7>>, !.w = 16, !.h = 16]
    ELSE IF f.sef THEN [S!Obu0 EXCEPT !.t = "fh", !.se = 1, !.idx = f.slot]
    ELSE LET sw == SwitchAt(og, f)
             er == IF sw THEN 1 ELSE c.er
         IN [S!Obu0 EXCEPT !.t = "frame", !.ft = IF sw THEN 3 ELSE 1, !.show = IF f.show THEN 1 ELSE 0, !.showable = 1,
               !.er = er, !.oh = f.oh % Pow(OHB), !.prf = IF er = 1 THEN 7 ELSE 2,
               !.refresh = IF sw THEN <<0,1,2,3,4,5,6,7>> ELSE <<f.slot>>,
               !.refs = Refs(f, Idx(c, og)), !.w = 16, !.h = 16]

Send == \E forced \in {TRUE, FALSE} :
        /\ p.count < MaxN /\ p.limit = -1
        /\ p' = SendP(c, p, forced) /\ UNCHANGED <<c, tu, d>>
Flush == p.limit = -1 /\ p' = FlushP(c, p) /\ UNCHANGED <<c, tu, d>>
Seq0 == [S!Obu0 EXCEPT !.t = "seq", !.hash = "s", !.ohb = OHB]
Recv == /\ p.limit >= 0       \* the schedule does not matter here: drain at the end
        /\ LET v == RecvP(c, p)
               x == v.p.out - 1
               og == x - p.go[x + 1]
               hd == Header(v.f, og, d)
               tu2 == (IF v.f.k = "key" THEN Append(tu, Seq0) ELSE tu) \o <<hd>>
           IN /\ v.r \in {"pkt", "Encoded"}
              /\ p' = v.p
              /\ IF v.r = "pkt"
                 THEN /\ d' = S!TU(c, d, [o |-> "R", r |-> "pkt", oerr |-> "", qp |-> 0, obus |-> tu2,
                                          ft |-> IF v.f.k = "key" THEN 0 ELSE IF SwitchAt(og, v.f) THEN 3 ELSE 1])
                      /\ tu' = <<S!Obu0>>
                 ELSE d' = d /\ tu' = tu2
        /\ UNCHANGED c
Next == Send \/ Flush \/ Recv
Spec == Init /\ [][Next]_vars
StreamOk == d.err = ""
===============================================================================
