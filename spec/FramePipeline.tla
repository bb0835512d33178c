---------------------------- MODULE FramePipeline -----------------------------
(***************************************************************************)
(* The encoder's frame pipeline as it is built (src/api/internal.rs):      *)
(* frame queue, keyframe placement ahead of coding, re-ordering groups     *)
(* with hidden frames and show-existing frames, placeholders where a       *)
(* keyframe cuts a group, the frame-invariants lookahead, and the packet   *)
(* pull.  Functional style: Send, Flush and Recv map a pipeline state and  *)
(* a configuration to the next state and the result.                       *)
(*                                                                         *)
(* Configuration: [la, ll, still, minkf, maxkf, scd, cuts, switch] where   *)
(* cuts is the set of frames the scene detector would pick on its own.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

INF == 1000000

PD(c)  == IF c.ll = 1 THEN 0 ELSE 2
GIL(c) == IF c.ll = 1 THEN 1 ELSE 4
GOL(c) == IF c.ll = 1 THEN 1 ELSE 6
KLD(c) == GIL(c) + 1
MaxKf(c) == IF c.maxkf = 0 THEN INF ELSE c.maxkf

Idx(c, o)  == (o - 1) % GOL(c)
Hint(c, o) == LET ix == Idx(c, o)
                  g == (o - 1) \div GOL(c)
                  off == IF ix < PD(c) THEN GIL(c) \div (2 ^ ix) ELSE ix - PD(c) + 1
              IN GIL(c) * g + off
InputNo(c, o, start) == IF o = 0 THEN start ELSE start + Hint(c, o)
Shown(c, o) == Idx(c, o) >= PD(c)
Pow2 == {1, 2, 4, 8}
Sef(c, o) == /\ c.ll = 0 /\ Shown(c, o)
             /\ (Idx(c, o) - PD(c) + 1) \in Pow2 /\ Idx(c, o) # PD(c)
Pow(n) == 2 ^ n
Level(c, o) == LET ix == Idx(c, o) p == ix - PD(c) + 1
               IN IF c.ll = 1 THEN 0
                  ELSE IF ix < PD(c) THEN ix
                  ELSE IF p % 4 = 0 THEN 0 ELSE IF p % 2 = 0 THEN 1 ELSE 2
Slot(c, lvl, oh) == IF lvl = 0 THEN (oh \div (2 ^ PD(c))) % 4 ELSE 3 + lvl

P0 == [ count |-> 0, limit |-> -1, fqEnd |-> 0, fqFlushed |-> FALSE,
        keys |-> {0}, forced |-> {}, nextLA |-> 1,
        fd |-> <<>>,       \* output frame number + 1 -> frame data
        go |-> <<>>, gi |-> <<>>,   \* gop starts per output frame number + 1
        out |-> 0, done |-> 0 ]

NeedsMoreFrames(p, x) == p.limit = -1 \/ x < p.limit
NeedsQ(c, p, n) == /\ p.fqEnd < n + KLD(c) + 1
                   /\ NeedsMoreFrames(p, p.fqEnd)
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y

\* frames in the lookahead window when frame n is judged
Window(p, n) == p.count - (n - 1)
Detected(c, p, n) ==
    LET d == n - MaxS(p.keys)
    IN /\ Window(p, n) > KLD(c)
       /\ d >= c.minkf
       /\ (d >= MaxKf(c) \/ (c.scd # 0 /\ n \in c.cuts))
Place(c, p) == LET n == p.nextLA
                   k == n \in p.forced \/ Detected(c, p, n)
               IN [p EXCEPT !.keys = IF k THEN @ \cup {n} ELSE @, !.nextLA = n + 1]

NextKey(c, p, start) ==
    LET det == {x \in p.keys : x > start}
        lim == IF p.limit >= 0 /\ p.limit < start + MaxKf(c) THEN p.limit ELSE start + MaxKf(c)
    IN IF det = {} THEN lim ELSE IF MinS(det) < lim THEN MinS(det) ELSE lim

HasFrame(p, n) == n < p.count

PrevFi(p, o) == LET S == {x \in 0..(o - 1) : p.fd[x + 1].k # "skip"} IN p.fd[MaxS(S) + 1]

FrameRec(c, key, in, o) ==
    IF key THEN [k |-> "key", in |-> in, show |-> TRUE, sef |-> FALSE, oh |-> 0, lvl |-> 0, slot |-> 0]
    ELSE [k |-> "inter", in |-> in, show |-> Shown(c, o), sef |-> Sef(c, o), oh |-> Hint(c, o),
          lvl |-> Level(c, o), slot |-> Slot(c, Level(c, o), Hint(c, o))]

\* one step of compute_frame_invariants: [ok, p]
Build(c, p) ==
    LET o == Len(p.fd)
        go0 == IF o = 0 THEN 0 ELSE p.go[o]
        gi0 == IF o = 0 THEN 0 ELSE p.gi[o]
        og == o - go0
        in == InputNo(c, og, gi0)
        nk == NextKey(c, p, gi0)
        Err == [ok |-> FALSE, p |-> p]
        Put(f, a, b) == [ok |-> TRUE, p |-> [p EXCEPT !.fd = Append(@, f), !.go = Append(@, a), !.gi = Append(@, b)]]
        Skip == Put([k |-> "skip", in |-> in, show |-> FALSE, sef |-> FALSE, oh |-> 0, lvl |-> 0, slot |-> 0], go0, gi0)
        Key(n) == Put(FrameRec(c, TRUE, n, 0), o, n)
        Rest == IF ~HasFrame(p, in) THEN Err
                ELSE IF in \in p.keys \/ og = 0 THEN Key(in)
                ELSE Put(FrameRec(c, FALSE, in, og), go0, gi0)
    IN IF NeedsQ(c, p, in) THEN Err
       ELSE IF og > 0 /\ in >= nk
       THEN IF c.ll = 1 \/ ((og - 1) % GOL(c) = 0 /\ PrevFi(p, o).in = nk - 1)
            THEN IF HasFrame(p, nk) THEN Key(nk) ELSE Err
            ELSE Skip
       ELSE Rest

RECURSIVE BuildAll(_, _), PlaceAll(_, _)
BuildAll(c, p) == LET b == Build(c, p) IN IF b.ok THEN BuildAll(c, b.p) ELSE p
PlaceAll(c, p) == IF p.count - (p.nextLA - 1) >= 2 THEN PlaceAll(c, Place(c, p)) ELSE p

SendP(c, p, forced) ==
    LET n == p.count
        p1 == [p EXCEPT !.count = n + 1, !.fqEnd = n, !.forced = IF forced THEN @ \cup {n} ELSE @]
        p2 == IF NeedsQ(c, p1, p1.nextLA) THEN p1 ELSE Place(c, p1)
    IN BuildAll(c, p2)
FlushP(c, p) ==
    IF p.limit >= 0 THEN p
    ELSE LET p1 == [p EXCEPT !.limit = p.count, !.fqEnd = p.count, !.fqFlushed = TRUE]
             p2 == IF NeedsQ(c, p1, p1.nextLA) THEN p1 ELSE PlaceAll(c, p1)
         IN BuildAll(c, p2)

SendOk(c, p) == p.limit = -1 /\ (c.still = 1 => p.count = 0)

Ready(p) == {x \in p.out..(Len(p.fd) - 1) : p.fd[x + 1].k # "skip" /\ ~p.fd[x + 1].sef}
\* receive_packet: [r, p, f]
RecvP(c, p) ==
    LET nxt == {x \in p.out..(Len(p.fd) - 1) : p.fd[x + 1].k # "skip"}
        R(r, q) == [r |-> r, p |-> q, f |-> [k |-> "none"]]
    IN IF p.limit >= 0 /\ p.done = p.limit THEN R("LimitReached", p)
       ELSE IF Cardinality(Ready(p)) < c.la + 1 /\ NeedsMoreFrames(p, p.nextLA) THEN R("NeedMoreData", p)
       ELSE IF nxt = {} THEN R("NeedMoreData", p)
       ELSE LET x == MinS(nxt)
                f == p.fd[x + 1]
                q == [p EXCEPT !.out = x + 1, !.done = IF f.show THEN @ + 1 ELSE @]
            IN IF ~NeedsMoreFrames(p, f.in) THEN R("LimitReached", p)
               ELSE [r |-> IF f.show THEN "pkt" ELSE "Encoded", p |-> q, f |-> f]
===============================================================================
