-------------------------------- MODULE Channel --------------------------------
(* The channel interface: a producer, a bounded queue of frames, the encoder's
   loop, an unbounded queue of packets, a consumer; either end may be dropped
   at any point, the producer may flush, pass data may run out.
   The encoder is abstract: it returns the packets of the frames it was given,
   in order, each once LOOK more frames are known or the stream was flushed.  *)
EXTENDS Naturals, Sequences
CONSTANTS N, Cap, Look, Limit, Rec, UsesRec
(* Rec: the pass data records the feeder offers before it is dropped          *)
VARIABLES sent, q, tx, known, flushed, out, pk, rx, got, fed, used, loop, refused
vars == <<sent, q, tx, known, flushed, out, pk, rx, got, fed, used, loop, refused>>
(* tx: "open" "flushed" "closed"; loop: "run" "done"                          *)
Flush == 0
Init == /\ sent = 0 /\ q = <<>> /\ tx = "open" /\ known = 0 /\ flushed = FALSE /\ out = 0 /\ pk = <<>>
        /\ rx = TRUE /\ got = <<>> /\ fed = 0 /\ used = 0 /\ loop = "run" /\ refused = 0
Accept == sent < Limit
Send == /\ tx = "open" /\ sent < N
        /\ IF ~Accept \/ loop = "done"
           THEN refused' = refused + 1 /\ refused < 2 /\ UNCHANGED <<sent, q>>
           ELSE Len(q) < Cap /\ q' = Append(q, sent + 1) /\ sent' = sent + 1 /\ UNCHANGED refused
        /\ UNCHANGED <<tx, known, flushed, out, pk, rx, got, fed, used, loop>>
SendFlush == /\ tx = "open" /\ (loop = "done" \/ Len(q) < Cap) /\ tx' = "flushed"
             /\ q' = (IF loop = "done" THEN q ELSE Append(q, Flush))
             /\ UNCHANGED <<sent, known, flushed, out, pk, rx, got, fed, used, loop, refused>>
(* Frames may still be sent after a flush; nothing comes of them.             *)
SendAfter == /\ tx = "flushed" /\ Len(q) < Cap /\ loop = "run" /\ refused < 2 /\ refused' = refused + 1 /\ q' = Append(q, N + 1)
             /\ UNCHANGED <<sent, tx, known, flushed, out, pk, rx, got, fed, used, loop>>
DropTx == /\ tx # "closed" /\ tx' = "closed" /\ UNCHANGED <<sent, q, known, flushed, out, pk, rx, got, fed, used, loop, refused>>
DropRx == /\ rx /\ rx' = FALSE /\ UNCHANGED <<sent, q, tx, known, flushed, out, pk, got, fed, used, loop, refused>>
Feed == /\ UsesRec /\ fed < Rec /\ fed' = fed + 1 /\ UNCHANGED <<sent, q, tx, known, flushed, out, pk, rx, got, used, loop, refused>>
Ready == out < known /\ (flushed \/ out + Look < known)
(* The loop: packets that are ready first, then the next frame.               *)
HasRec == ~UsesRec \/ used < fed
Emit == /\ loop = "run" /\ Ready
        /\ IF HasRec
           THEN IF rx THEN pk' = Append(pk, out + 1) /\ out' = out + 1 /\ used' = used + (IF UsesRec THEN 1 ELSE 0) /\ UNCHANGED loop
                ELSE loop' = "done" /\ UNCHANGED <<pk, out, used>>
           ELSE fed = Rec /\ loop' = "done" /\ UNCHANGED <<pk, out, used>>    \* the feeder was dropped
        /\ UNCHANGED <<sent, q, tx, known, flushed, rx, got, fed, refused>>
Take == /\ loop = "run" /\ ~Ready /\ ~flushed
        /\ IF q # <<>>
           THEN /\ IF Head(q) = Flush THEN flushed' = TRUE /\ UNCHANGED known ELSE known' = known + 1 /\ UNCHANGED flushed
                /\ q' = Tail(q)
           ELSE tx = "closed" /\ flushed' = TRUE /\ UNCHANGED <<q, known>>
        /\ UNCHANGED <<sent, tx, out, pk, rx, got, fed, used, loop, refused>>
Finish == /\ loop = "run" /\ flushed /\ out = known /\ loop' = "done"
          /\ UNCHANGED <<sent, q, tx, known, flushed, out, pk, rx, got, fed, used, refused>>
Recv == /\ rx /\ pk # <<>> /\ got' = Append(got, Head(pk)) /\ pk' = Tail(pk)
        /\ UNCHANGED <<sent, q, tx, known, flushed, out, rx, fed, used, loop, refused>>
Ended == loop = "done" /\ pk = <<>>
Idle == loop = "done" /\ tx = "closed" /\ (~rx \/ pk = <<>>) /\ UNCHANGED vars
Next == Send \/ SendFlush \/ SendAfter \/ DropTx \/ DropRx \/ Feed \/ Emit \/ Take \/ Finish \/ Recv \/ Idle
(* the producer eventually leaves, the consumer eventually takes or leaves    *)
Spec == Init /\ [][Next]_vars /\ WF_vars(DropTx) /\ WF_vars(Feed) /\ WF_vars(Emit) /\ WF_vars(Take) /\ WF_vars(Finish) /\ WF_vars(Recv)
Enough == UsesRec => Rec >= N
Ordered == \A i \in DOMAIN got : got[i] = i
Whole == Ended /\ rx /\ Enough => Len(got) = sent
Bounded == Len(q) <= Cap /\ sent <= Limit /\ known <= sent
Ends == <>(loop = "done")
Sees == [](rx) => <>(Ended)
===============================================================================
