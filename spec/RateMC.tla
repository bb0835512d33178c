-------------------------------- MODULE RateMC ---------------------------------
(***************************************************************************)
(* A rate controller with a leaky bucket: for each frame it wants some     *)
(* quantizer (whatever its model of the content says), moves at most a     *)
(* step away from the last one, corrects for a bucket that would overflow  *)
(* or run dry, and finally clamps to the maximum, then to the minimum.     *)
(* Whatever it wants and whatever the sizes of the frames turn out to be,  *)
(* the index written for a frame lies between those of the two constant    *)
(* quantizers.                                                             *)
(***************************************************************************)
EXTENDS RateBounds, TLC
CONSTANTS Top,      \* largest index
          Cap,      \* size of the bucket
          Frames
VARIABLES lo, hi, prev, fill, n, out
vars == <<lo, hi, prev, fill, n, out>>

Clip(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
Flat(k, q) == q + k                       \* a frame of kind k is coded coarser
Index(k, x, s) == Clip(x + s, 1, Top)     \* content weight s, never lossless

Init == /\ lo \in 0..Top /\ hi \in 0..Top
        /\ prev = -1 /\ fill = Cap \div 2 /\ n = 0 /\ out = <<>>
Choose(k, s, want, fix, size) ==
    LET a == IF prev = -1 THEN want ELSE Clip(want, prev - 2, prev + 2)
        q1 == Flat(k, a)
        q2 == IF fill < size THEN Max(q1, fix) ELSE IF fill = Cap THEN Min(q1, fix) ELSE q1
        base == Max(Min(a, hi), lo)
        q3 == Max(Min(q2, Flat(k, hi)), Flat(k, lo))
    IN /\ prev' = base
       /\ fill' = Clip(fill - size + 2, 0, Cap)
       /\ out' = <<Index(k, Flat(k, lo), s), Index(k, Flat(k, hi), s), Index(k, q3, s)>>
Next == /\ n < Frames /\ n' = n + 1
        /\ \E k \in 0..2, s \in {-1, 0, 2}, want, fix \in 0..Top, size \in {0, 1, 3, Cap} : Choose(k, s, want, fix, size)
        /\ UNCHANGED <<lo, hi>>
Spec == Init /\ [][Next]_vars

Bounded == out # <<>> => Within(out[1], out[2], out[3])
NeverZero == out # <<>> => out[3] >= 1
BaseBounded == prev # -1 => Within(lo, hi, prev)
===============================================================================
