-------------------------------- MODULE TileMerge -----------------------------
(***************************************************************************)
(* A frame coded by several workers: each tile is taken by any idle worker *)
(* in any order, coded in steps that read the frozen previous picture and  *)
(* write the tile's own region, its own contexts and its own statistics;   *)
(* tiles are then gathered in tile order, the largest tile (the last one   *)
(* of them in tile order on a tie) supplies the contexts for the next      *)
(* frame, and the next frame starts.  Two encoders share the worker pool.  *)
(* Whatever the schedule, each encoder writes the stream it writes alone   *)
(* with one worker.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Encoders, Tiles, Workers, FramesN, Steps

\* what one step of coding contributes, given what the tile saw before
Mix(a, b, c) == (a * 31 + b * 17 + c * 7 + 3) % 97
RECURSIVE TileValue(_, _, _, _)
TileValue(prev, ctx, t, n) == IF n = 0 THEN Mix(prev, ctx, t) ELSE Mix(TileValue(prev, ctx, t, n - 1), prev, t + n)
LenOf(v) == v % 3
Largest(vs) == CHOOSE t \in 1..Tiles : \A u \in 1..Tiles : LenOf(vs[u]) < LenOf(vs[t]) \/ (LenOf(vs[u]) = LenOf(vs[t]) /\ u <= t)
RECURSIVE Pic(_, _)
Pic(vs, t) == IF t = 0 THEN 0 ELSE Mix(Pic(vs, t - 1), vs[t], t)

\* the stream of encoder e on its own: <<picture, contexts, bytes>> after n frames
RECURSIVE Alone(_, _)
Alone(e, n) == IF n = 0 THEN [pic |-> e, ctx |-> e + 5, out |-> <<>>]
               ELSE LET p == Alone(e, n - 1)
                        vs == [t \in 1..Tiles |-> TileValue(p.pic, p.ctx, t, Steps)]
                    IN [pic |-> Pic(vs, Tiles), ctx |-> vs[Largest(vs)], out |-> Append(p.out, vs)]

VARIABLES pic, ctx, out, tile, busy
vars == <<pic, ctx, out, tile, busy>>
\* tile[e][t]: steps done (-1 not started) and the value so far
Init == /\ pic = [e \in Encoders |-> e] /\ ctx = [e \in Encoders |-> e + 5] /\ out = [e \in Encoders |-> <<>>]
        /\ tile = [e \in Encoders |-> [t \in 1..Tiles |-> [n |-> -1, v |-> 0]]]
        /\ busy = [w \in Workers |-> <<>>]
Take(w) == /\ busy[w] = <<>>
           /\ \E e \in Encoders, t \in 1..Tiles :
                /\ Len(out[e]) < FramesN /\ tile[e][t].n = -1 /\ \A x \in Workers : busy[x] # <<e, t>>
                /\ busy' = [busy EXCEPT ![w] = <<e, t>>]
                /\ tile' = [tile EXCEPT ![e][t] = [n |-> 0, v |-> Mix(pic[e], ctx[e], t)]]
           /\ UNCHANGED <<pic, ctx, out>>
Code(w) == /\ busy[w] # <<>>
           /\ LET e == busy[w][1]
                  t == busy[w][2]
                  x == tile[e][t]
              IN IF x.n < Steps
                 THEN /\ tile' = [tile EXCEPT ![e][t] = [n |-> x.n + 1, v |-> Mix(x.v, pic[e], t + x.n + 1)]]
                      /\ busy' = busy
                 ELSE busy' = [busy EXCEPT ![w] = <<>>] /\ tile' = tile
           /\ UNCHANGED <<pic, ctx, out>>
Gather(e) == /\ \A t \in 1..Tiles : tile[e][t].n = Steps
             /\ \A w \in Workers : (IF busy[w] = <<>> THEN TRUE ELSE busy[w][1] # e)
             /\ LET vs == [t \in 1..Tiles |-> tile[e][t].v]
                IN /\ out' = [out EXCEPT ![e] = Append(@, vs)]
                   /\ pic' = [pic EXCEPT ![e] = Pic(vs, Tiles)]
                   /\ ctx' = [ctx EXCEPT ![e] = vs[Largest(vs)]]
             /\ tile' = [tile EXCEPT ![e] = [t \in 1..Tiles |-> [n |-> -1, v |-> 0]]]
             /\ UNCHANGED busy
Next == (\E w \in Workers : Take(w) \/ Code(w)) \/ (\E e \in Encoders : Gather(e))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Deterministic == \A e \in Encoders : out[e] = Alone(e, Len(out[e])).out /\ pic[e] = Alone(e, Len(out[e])).pic
Finishes == <>(\A e \in Encoders : Len(out[e]) = FramesN)
===============================================================================
