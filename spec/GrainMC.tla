------------------------------- MODULE GrainMC --------------------------------
(* An encoder that codes pictures out of display order, keeps one seed per   *)
(* segment and advances it with every picture coded after a keyframe: what   *)
(* it announces keeps the rules, for every table of the domain, whatever the *)
(* order.                                                                    *)
EXTENDS GrainTable
CONSTANTS MaxPics, Reach, Seeds, Bounds
Seg(a, b, s, cb) == [start |-> Big(a), end |-> Big(b), seed |-> s, y |-> <<<<0, 20>>>>, cfl |-> 0, cb |-> cb, cr |-> <<>>, shift |-> 8, lag |-> 0,
                     ay |-> <<>>, acb |-> <<5>>, acr |-> <<6>>, ashift |-> 6, gss |-> 0, m |-> <<<<1, 2, 3>>, <<4, 5, 6>>>>, ov |-> 0]
VARIABLES c, g, seeds, hold, phase
vars == <<c, g, seeds, hold, phase>>
Init == c = [segs |-> <<>>, num |-> Big(1), den |-> Big(10000000), mono |-> FALSE, s420 |-> TRUE, lim |-> 1]
        /\ g = K0 /\ seeds = <<>> /\ hold = [i \in 0..7 |-> [pos |-> -1]] /\ phase = "table"
Table == /\ phase = "table" /\ phase' = "run"
         /\ \E a \in Bounds, b \in Bounds, d \in Bounds, s \in Seeds, t \in Seeds, m \in BOOLEAN, cb \in {<<>>, <<<<9, 9>>>>} :
              /\ a < b /\ b <= d
              /\ c' = [c EXCEPT !.mono = m, !.segs = <<Seg(a, b, s, cb), Seg(b, d, t, <<>>)>>]
         /\ UNCHANGED <<g, seeds, hold>>
At(n) == Covering(c, n)
Off == [on |-> FALSE, p |-> <<>>, seed |-> 0]
Ann(n, sd) == IF At(n) = {} THEN Off
              ELSE LET j == CHOOSE j \in At(n) : \A k \in At(n) : j <= k
                   IN [on |-> TRUE, p |-> Announced(c, c.segs[j]), seed |-> sd[j]]
Adv(n) == [j \in 1..Len(c.segs) |-> IF j \in At(n) THEN Advance(seeds[j]) ELSE seeds[j]]
Hdr(key, show, slots) == [se |-> 0, idx |-> 0, key |-> key, show |-> show, refresh |-> slots]
Key == /\ phase = "run" /\ g.n < MaxPics /\ \A i \in 0..7 : hold[i].pos < g.n
       /\ seeds' = [j \in 1..Len(c.segs) |-> c.segs[j].seed]
       /\ g' = FrameStep(c, g, Hdr(1, 1, <<0, 1, 2, 3, 4, 5, 6, 7>>), Ann(g.n, seeds'))
       /\ hold' = [i \in 0..7 |-> [pos |-> -1]]
       /\ UNCHANGED <<c, phase>>
Shown == /\ phase = "run" /\ seeds # <<>> /\ g.n < MaxPics
         /\ \A i \in 0..7 : hold[i].pos # g.n
         /\ seeds' = Adv(g.n)
         /\ g' = FrameStep(c, g, Hdr(0, 1, <<0>>), Ann(g.n, seeds'))
         /\ UNCHANGED <<c, hold, phase>>
Hidden == /\ phase = "run" /\ seeds # <<>>
          /\ \E p \in g.n + 1..g.n + Reach, s \in {1, 2} :
                /\ p < MaxPics /\ \A i \in 0..7 : hold[i].pos # p
                /\ hold[s].pos < g.n
                /\ seeds' = Adv(p)
                /\ g' = FrameStep(c, g, Hdr(0, 0, <<s>>), Off)
                /\ hold' = [hold EXCEPT ![s] = [pos |-> p, x |-> Ann(p, seeds')]]
          /\ UNCHANGED <<c, phase>>
Existing == /\ phase = "run"
            /\ \E s \in {1, 2} : /\ hold[s].pos = g.n
                                 /\ g' = FrameStep(c, g, [se |-> 1, idx |-> s], hold[s].x)
            /\ UNCHANGED <<c, seeds, hold, phase>>
Next == Table \/ Key \/ Shown \/ Hidden \/ Existing
Spec == Init /\ [][Next]_vars
Sound == g.err = ""
===============================================================================
