------------------------------ MODULE RetentionMC ------------------------------
(***************************************************************************)
(* An encoder with a lookahead that codes pictures out of order, refreshes *)
(* any reference slots it likes, and collects what it no longer needs      *)
(* after every packet; a client that sends, asks, flushes and drops it at  *)
(* any time.  Whatever the order, it never holds more than Retention       *)
(* allows, and everything is released at the end.                          *)
(***************************************************************************)
EXTENDS Retention
CONSTANTS N, Ahead, NSlots, MaxHidden

VARIABLES q,       \* pictures in the frame queue
          coded,   \* pictures coded and not delivered
          slots,   \* reference slot -> picture, or -1
          last,    \* the picture coded last, or -1
          tagged,  \* accepted pictures whose user data was not handed out
          flushed, gone, l
vars == <<q, coded, slots, last, tagged, flushed, gone, l>>

Held == q \cup coded \cup { slots[x] : x \in 1..NSlots } \cup {last}
Real == { x \in Held : x >= 0 }

Init == /\ q = {} /\ coded = {} /\ slots = [x \in 1..NSlots |-> -1] /\ last = -1
        /\ tagged = {} /\ flushed = FALSE /\ gone = FALSE /\ l = L0

Judge(m, h, t) == Holding(m, h, Cardinality(t))

SendIt(tag) ==
    /\ ~gone /\ ~flushed /\ l.s < N
    /\ q' = q \cup {l.s}
    /\ tagged' = IF tag THEN tagged \cup {l.s} ELSE tagged
    /\ UNCHANGED <<coded, slots, last, flushed, gone>>
    /\ l' = Judge(Send(l, TRUE, l.s, tag), Real \cup {l.s}, tagged')
Refused ==
    /\ ~gone /\ flushed
    /\ UNCHANGED <<q, coded, slots, last, tagged, flushed, gone>>
    /\ l' = Judge(Send(l, FALSE, l.s, TRUE), Real, tagged)
Flush == ~gone /\ ~flushed /\ flushed' = TRUE /\ UNCHANGED <<q, coded, slots, last, tagged, gone, l>>

\* one step of coding: any picture within reach, into any slots
Code(p, S) ==
    /\ ~gone /\ p \in q /\ p <= l.d + MaxHidden /\ p \notin coded
    /\ (l.s > l.d + Ahead \/ flushed)
    /\ coded' = coded \cup {p}
    /\ slots' = [x \in 1..NSlots |-> IF x \in S THEN p ELSE slots[x]]
    /\ last' = p
    /\ UNCHANGED <<q, tagged, flushed, gone>>
    /\ l' = Judge(l, { x \in q \cup coded' \cup { slots'[y] : y \in 1..NSlots } \cup {p} : x >= 0 }, tagged)
\* the packet of the next picture, once coded; the queue is collected
Out ==
    /\ ~gone /\ l.d \in coded
    /\ coded' = coded \ {l.d}
    /\ q' = { x \in q : x > l.d }
    /\ tagged' = tagged \ {l.d}
    /\ UNCHANGED <<slots, last, flushed, gone>>
    /\ l' = Judge(Deliver(l, l.d), { x \in q' \cup coded' \cup { slots[y] : y \in 1..NSlots } \cup {last} : x >= 0 }, tagged')
Drop ==
    /\ ~gone /\ gone' = TRUE
    /\ q' = {} /\ coded' = {} /\ slots' = [x \in 1..NSlots |-> -1] /\ last' = -1 /\ tagged' = {}
    /\ UNCHANGED flushed
    /\ l' = Gone(l, {}, 0)

Next == \/ \E t \in BOOLEAN : SendIt(t)
        \/ Refused \/ Flush \/ Out \/ Drop
        \/ \E p \in 0..(N - 1) : \E S \in SUBSET (1..NSlots) : Code(p, S)
Spec == Init /\ [][Next]_vars /\ WF_vars(Flush) /\ WF_vars(Out) /\ WF_vars(\E p \in q : Code(p, {}))

Allowed == l.err = ""
\* what is held stays within a bound that does not mention N
Bounded == Cardinality({ x \in Real : x < l.d }) <= NSlots + 1
\* after the flush everything accepted comes out, unless the encoder is dropped
Drained == flushed ~> (gone \/ l.d = l.s)
================================================================================
