------------------------------ MODULE GopChannel ------------------------------
(* Encoding groups of pictures on several workers: the splitter cuts the frames
   into runs, the dispatcher gives the runs of one group to one worker, each
   worker is an encoder of its own, the packets are put together in the order of
   the groups.  Where the cuts fall is left open.                             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, P, W, Look, Cap
(* N frames at most, P: keyframe lookahead, W workers, Look: what a worker holds
   back, Cap: runs that may wait for the dispatcher                           *)
L == P + 2
VARIABLES sent, closed, la, fr, split, runs, cur, gq, gend, wk, known, out, dispatch, res, last, got
vars == <<sent, closed, la, fr, split, runs, cur, gq, gend, wk, known, out, dispatch, res, last, got>>
Gops == 1..(N + 1)
Idle == 0
Init == /\ sent = 0 /\ closed = FALSE /\ la = <<>> /\ fr = 0 /\ split = "read" /\ runs = <<>>
        /\ cur = 0 /\ gq = [g \in Gops |-> <<>>] /\ gend = [g \in Gops |-> FALSE]
        /\ wk = [w \in 1..W |-> Idle] /\ known = [g \in Gops |-> <<>>] /\ out = [g \in Gops |-> 0]
        /\ dispatch = "ask" /\ res = [g \in Gops |-> "none"] /\ last = 1 /\ got = <<>>
(* The splitter.  "read": it takes the next frame; "cut": it looks for a cut.  *)
Push == /\ split = "read" /\ ~closed /\ sent < N
        /\ sent' = sent + 1 /\ la' = Append(la, sent + 1)
        /\ split' = (IF Len(la') < L THEN "read" ELSE "cut")
        /\ UNCHANGED <<closed, fr, runs, cur, gq, gend, wk, known, out, dispatch, res, last, got>>
Close == /\ split = "read" /\ ~closed /\ closed' = TRUE /\ split' = "drain"
         /\ UNCHANGED <<sent, la, fr, runs, cur, gq, gend, wk, known, out, dispatch, res, last, got>>
(* One look for a cut: how many frames go, whether the group ends there.       *)
Look1(new) == IF fr > P THEN [n |-> P + 2, e |-> new, fr |-> fr - (P + 1)]
              ELSE IF new THEN [n |-> fr + 1, e |-> TRUE, fr |-> 0]
              ELSE [n |-> 0, e |-> FALSE, fr |-> fr + 1]
Cut == /\ split = "cut" \/ (split = "drain" /\ Len(la) > L)
       /\ Len(runs) < Cap
       /\ \E new \in BOOLEAN :
            LET r == Look1(new)
            IN /\ fr' = r.fr
               /\ IF r.n = 0 THEN UNCHANGED <<la, runs>>
                  ELSE /\ runs' = Append(runs, [f |-> SubSeq(la, 1, r.n), e |-> r.e])
                       /\ la' = SubSeq(la, r.n + 1, Len(la))
       /\ split' = (IF split = "cut" THEN "read" ELSE "drain")
       /\ UNCHANGED <<sent, closed, cur, gq, gend, wk, known, out, dispatch, res, last, got>>
Rest == /\ split = "drain" /\ Len(la) <= L /\ Len(runs) < Cap
        /\ runs' = (IF la = <<>> THEN runs ELSE Append(runs, [f |-> la, e |-> TRUE]))
        /\ la' = <<>> /\ split' = "done"
        /\ UNCHANGED <<sent, closed, fr, cur, gq, gend, wk, known, out, dispatch, res, last, got>>
(* The dispatcher.                                                            *)
Ask == /\ dispatch = "ask" /\ \E w \in 1..W : wk[w] = Idle /\ wk' = [wk EXCEPT ![w] = cur + 1]
       /\ cur' = cur + 1 /\ res' = [res EXCEPT ![cur + 1] = "open"] /\ dispatch' = "feed"
       /\ UNCHANGED <<sent, closed, la, fr, split, runs, gq, gend, known, out, last, got>>
FeedRun == /\ dispatch = "feed" /\ runs # <<>>
           /\ gq' = [gq EXCEPT ![cur] = @ \o Head(runs).f]
           /\ runs' = Tail(runs)
           /\ IF Head(runs).e THEN dispatch' = "ask" /\ gend' = [gend EXCEPT ![cur] = TRUE]
              ELSE UNCHANGED <<dispatch, gend>>
           /\ UNCHANGED <<sent, closed, la, fr, split, cur, wk, known, out, res, last, got>>
Leave == /\ dispatch = "feed" /\ runs = <<>> /\ split = "done" /\ dispatch' = "done" /\ gend' = [gend EXCEPT ![cur] = TRUE]
         /\ UNCHANGED <<sent, closed, la, fr, split, runs, cur, gq, wk, known, out, res, last, got>>
(* A worker is an encoder: it takes the frames of its group and returns them.  *)
WTake(w) == /\ wk[w] # Idle /\ gq[wk[w]] # <<>>
            /\ ~(out[wk[w]] + Look < Len(known[wk[w]]))
            /\ known' = [known EXCEPT ![wk[w]] = Append(@, Head(gq[wk[w]]))]
            /\ gq' = [gq EXCEPT ![wk[w]] = Tail(@)]
            /\ UNCHANGED <<sent, closed, la, fr, split, runs, cur, gend, wk, out, dispatch, res, last, got>>
Ended(g) == gend[g] /\ gq[g] = <<>>
WEmit(w) == /\ wk[w] # Idle /\ LET g == wk[w] IN
                 /\ out[g] < Len(known[g]) /\ (Ended(g) \/ out[g] + Look < Len(known[g]))
                 /\ out' = [out EXCEPT ![g] = @ + 1]
            /\ UNCHANGED <<sent, closed, la, fr, split, runs, cur, gq, gend, wk, known, dispatch, res, last, got>>
WDone(w) == /\ wk[w] # Idle /\ LET g == wk[w] IN
                 /\ Ended(g) /\ out[g] = Len(known[g])
                 /\ res' = [res EXCEPT ![g] = "closed"]
            /\ wk' = [wk EXCEPT ![w] = Idle]
            /\ UNCHANGED <<sent, closed, la, fr, split, runs, cur, gq, gend, known, out, dispatch, last, got>>
(* Put together: the groups in turn, each to its end.                         *)
Taken(g) == Cardinality({i \in DOMAIN got : got[i][1] = g})
Collect == /\ res[last] # "none" /\ Taken(last) < out[last]
           /\ got' = Append(got, <<last, known[last][Taken(last) + 1]>>)
           /\ UNCHANGED <<sent, closed, la, fr, split, runs, cur, gq, gend, wk, known, out, dispatch, res, last>>
NextGop == /\ last < N + 1 /\ res[last] = "closed" /\ Taken(last) = out[last] /\ last' = last + 1
           /\ UNCHANGED <<sent, closed, la, fr, split, runs, cur, gq, gend, wk, known, out, dispatch, res, got>>
Over == dispatch = "done" /\ \A g \in 1..cur : res[g] = "closed" /\ (g < last \/ (g = N + 1 /\ Taken(g) = out[g]))
Stay == Over /\ UNCHANGED vars
Next == \/ Push \/ Close \/ Cut \/ Rest \/ Ask \/ FeedRun \/ Leave \/ Collect \/ NextGop \/ Stay
        \/ \E w \in 1..W : WTake(w) \/ WEmit(w) \/ WDone(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Close) /\ WF_vars(Cut) /\ WF_vars(Rest) /\ WF_vars(Ask) /\ WF_vars(FeedRun) /\ WF_vars(Leave)
             /\ WF_vars(Collect) /\ WF_vars(NextGop) /\ \A w \in 1..W : WF_vars(WTake(w)) /\ WF_vars(WEmit(w)) /\ WF_vars(WDone(w))
(* the detector's window starts inside the frames held, and always has two    *)
InRange == /\ fr <= P + 1
           /\ (split = "cut" \/ (split = "drain" /\ Len(la) > L)) => fr + 2 <= Len(la)
Ordered == \A i \in DOMAIN got : got[i][2] = i
Whole == Over => Len(got) = sent
(* a group that is empty can only be the last                                 *)
Filled == \A g \in Gops : g < cur => known[g] # <<>> \/ gq[g] # <<>>
(* a worker has one group at a time                                           *)
Busy == Cardinality({g \in Gops : res[g] = "open"}) <= W
Ends == <>Over
===============================================================================
