------------------------------- MODULE Retention -------------------------------
(***************************************************************************)
(* What an encoder holds on to.  A picture it accepted is held until its   *)
(* packet is out, because the packet hands it back; after that only a      *)
(* reference slot, or the frame last coded, may still hold it.  User data  *)
(* is held from acceptance to delivery.  What a stream occupies does not   *)
(* grow with the number of frames behind it, and an encoder that is        *)
(* dropped leaves nothing behind.                                          *)
(*                                                                         *)
(* l.s  accepted frames      l.d     delivered frames                      *)
(* l.tags  frames that carry user data and are not delivered               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Slots == 8          \* reference slots of AV1
Lag   == 2          \* the frame last coded, and the frame scene detection saw

L0 == [s |-> 0, d |-> 0, tags |-> {}, err |-> ""]
Fail(l, r) == IF l.err = "" THEN [l EXCEPT !.err = r] ELSE l
Check(l, b, r) == IF b THEN l ELSE Fail(l, r)
Behind(l, held) == { i \in held : i < l.d }

\* what may be held at any time
Holding(l, held, tags) ==
    LET a == Check(l, l.d..(l.s - 1) \subseteq held, "undelivered-picture-dropped")
        b == Check(a, \A i \in held : i < l.s, "refused-picture-kept")
        c == Check(b, Cardinality(Behind(l, held)) <= Slots + Lag, "delivered-pictures-pile-up")
    IN Check(c, tags = Cardinality(l.tags), "user-data-kept-or-lost")

\* frame no is offered; tag: it carries user data
Send(l, ok, no, tag) ==
    IF ok THEN [Check(l, no = l.s, "numbering") EXCEPT !.s = @ + 1, !.tags = IF tag THEN @ \cup {no} ELSE @] ELSE l
Deliver(l, no) == [Check(l, no = l.d, "numbering") EXCEPT !.d = @ + 1, !.tags = @ \ {no}]
\* the encoder is gone
Gone(l, held, tags) == Check(Check(l, held = {}, "pictures-leaked"), tags = 0, "user-data-leaked")

----------------------------------------------------------------------------
(* Heap, in bytes.  Steady: over the last quarter of the packets before the *)
(* flush the peak is no higher than over the half before it, except for a   *)
(* few bytes of bookkeeping per frame and the noise of buffer growth.       *)
RECURSIVE Peak(_, _, _, _)
Peak(h, a, b, m) == IF a > b THEN m ELSE Peak(h, a + 1, b, IF h[a] > m THEN h[a] ELSE m)
PerFrame == 16
Noise    == 4096
Steady(h) ==
    LET n == Len(h)
        q == n \div 4
    IN n < 64 \/ Peak(h, 3 * q + 1, n, 0) <= Peak(h, q + 1, 3 * q, 0) + Noise + PerFrame * (n - 3 * q)
\* Half a dozen encoders more, of a kind that was used before, leave nothing
\* behind but the thread pools' deferred garbage.
Clean(before, after, threads) == after <= before + 12288 + 16384 * threads
================================================================================
