------------------------------ MODULE EncoderApi ------------------------------
(***************************************************************************)
(* The contract of the push/pull encoder interface (Context::send_frame,   *)
(* receive_packet, flush), written functionally: Apply gives the abstract  *)
(* state after an observed call, and one rule table per property says      *)
(* which observations the contract allows in a state.  The same operators  *)
(*  - drive the exhaustive model EncoderApiMC (environment = any caller),  *)
(*  - are refined by the implementation-shaped model FramePipeline,        *)
(*  - judge the recorded executions of the real encoder (TraceApi).        *)
(*                                                                         *)
(* A configuration is a record                                             *)
(*   la     frames of rate-distortion lookahead                            *)
(*   ll     low latency (no re-ordering)                                   *)
(*   still  still-picture mode                                             *)
(*   minkf, maxkf   keyframe interval bounds, maxkf = 0: unbounded         *)
(*   scd    scene detection mode, 0: off                                   *)
(*   switch switch-frame interval, 0: none                                 *)
(*                                                                         *)
(* A frame is a record [key, opq, t35, h]: keyframe requested, opaque      *)
(* value or -1, sequence of T.35 payloads, digest of the picture.          *)
(*                                                                         *)
(* An event is a record with o in {"S","F","R","E"} (send, flush, receive, *)
(* end of the recorded session) and r, the observed result.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS
    Slack,        \* frames the encoder may hold beyond the lookahead
    MaxEncoded    \* hidden frames that may be coded between two shown ones

KEY == 0
INTER == 1
SWITCH == 3

Init0 == [ q       |-> <<>>,   \* accepted, not yet delivered, in order
           acc     |-> 0,      \* frames accepted
           del     |-> 0,      \* packets delivered
           flushed |-> FALSE,
           ended   |-> FALSE,  \* end of stream was reported
           enc     |-> 0,      \* consecutive "Encoded" results
           lastKey |-> 0,      \* number of the last keyframe delivered
           prevH   |-> "",     \* picture delivered last
           same    |-> 0 ]     \* how many equal pictures were delivered in a row

Frame(e) == [key |-> e.key, opq |-> e.opq, t35 |-> e.t35, h |-> e.h]

Accepts(c, s) == ~s.flushed /\ (c.still = 1 => s.acc = 0)

IsPkt(e)  == e.o = "R" /\ e.r = "pkt"
IsSend(e) == e.o = "S"

(***************************************************************************)
(* Effect of an observed call.                                             *)
(***************************************************************************)
Apply(c, s, e) ==
    CASE e.o = "S" /\ e.r = "ok" ->
            [s EXCEPT !.q = Append(@, Frame(e)), !.acc = @ + 1]
      [] e.o = "F" /\ e.r = "ok" -> [s EXCEPT !.flushed = TRUE]
      [] e.o = "R" /\ e.r = "pkt" ->
            [s EXCEPT !.q = IF @ = <<>> THEN <<>> ELSE Tail(@),
                      !.del = @ + 1,
                      !.enc = 0,
                      !.lastKey = IF e.ft = KEY THEN s.del ELSE @,
                      !.prevH = IF s.q = <<>> THEN "" ELSE Head(s.q).h,
                      !.same = IF s.q # <<>> /\ Head(s.q).h = s.prevH THEN @ + 1 ELSE 1]
      [] e.o = "R" /\ e.r = "Encoded" -> [s EXCEPT !.enc = @ + 1]
      [] e.o = "R" /\ e.r = "LimitReached" -> [s EXCEPT !.ended = TRUE, !.enc = 0]
      [] e.o = "R" /\ e.r = "NeedMoreData" -> [s EXCEPT !.enc = 0]
      [] OTHER -> s

(***************************************************************************)
(* Rules.  Each table is a sequence of <<name, holds>>.                    *)
(***************************************************************************)
Alive(e) == e.r \notin {"panic", "crash", "hang"}

\* C01: each accepted frame leaves exactly once, in order
Rules01(c, s, e) == <<
    <<"no-panic",        Alive(e)>>,
    <<"packet-has-frame", IsPkt(e) => s.q # <<>> >>,
    <<"packet-number",   IsPkt(e) => e.no = s.del>>,
    <<"end-complete",    (e.o = "R" /\ e.r = "LimitReached") => s.q = <<>> >>,
    <<"drained",         (e.o = "E" /\ c.drain = 1) => (s.q = <<>> /\ s.del = s.acc)>>
  >>

\* C02: status protocol
Rules02(c, s, e) == <<
    <<"no-panic",   Alive(e)>>,
    <<"send",       e.o = "S" => e.r = (IF Accepts(c, s) THEN "ok" ELSE "EnoughData")>>,
    <<"flush",      e.o = "F" => e.r = "ok">>,
    <<"receive",    e.o = "R" => e.r \in {"pkt", "Encoded", "NeedMoreData", "LimitReached"}>>,
    <<"need-more",  (e.o = "R" /\ e.r = "NeedMoreData") =>
                        (~s.flushed /\ Len(s.q) <= c.la + Slack)>>,
    <<"encoded",    (e.o = "R" /\ e.r = "Encoded") => (s.q # <<>> /\ s.enc < MaxEncoded)>>,
    <<"end",        (e.o = "R" /\ e.r = "LimitReached") => (s.flushed /\ s.q = <<>>)>>,
    <<"end-certain", (e.o = "R" /\ s.flushed /\ s.q = <<>>) => e.r = "LimitReached">>,
    <<"end-forever", (e.o = "R" /\ s.ended) => e.r = "LimitReached">>,
    <<"drained",    (e.o = "E" /\ c.drain = 1) => s.ended>>
  >>

\* C03: user data stays with its frame
Rules03(c, s, e) == <<
    <<"no-panic", Alive(e)>>,
    <<"opaque",  IsPkt(e) => (s.q # <<>> /\ e.opq = Head(s.q).opq)>>,
    <<"source",  IsPkt(e) => (s.q # <<>> /\ e.src = Head(s.q).h)>>,
    <<"t35",     IsPkt(e) => (s.q # <<>> /\ e.t35 = Head(s.q).t35)>>,
    <<"drained", (e.o = "E" /\ c.drain = 1) => s.q = <<>> >>
  >>

\* C04: keyframe placement, judged on the packet for frame s.del
Dist(s) == s.del - s.lastKey
Due(c, s) == \/ s.del = 0
             \/ Head(s.q).key = 1
             \/ c.maxkf > 0 /\ Dist(s) = c.maxkf
\* the scene detector looks a few frames to both sides, so a cut is only
\* certainly wrong inside a run of identical pictures
Calm(s) == /\ s.same >= 8
           /\ \A i \in 1..Len(s.q) : i <= 8 => s.q[i].h = s.prevH
MayKey(c, s) == /\ c.scd # 0
                /\ Dist(s) >= c.minkf
                /\ ~Calm(s)
SwitchDue(c, s) == c.switch > 0 /\ Dist(s) % c.switch = 0
Rules04(c, s, e) == <<
    <<"no-panic", Alive(e)>>,
    <<"has-frame", IsPkt(e) => s.q # <<>> >>,
    <<"due",     (IsPkt(e) /\ s.q # <<>> /\ Due(c, s)) => e.ft = KEY>>,
    <<"max-interval", (IsPkt(e) /\ c.maxkf > 0 /\ e.ft # KEY) => Dist(s) < c.maxkf>>,
    <<"unrequested", (IsPkt(e) /\ s.q # <<>> /\ e.ft = KEY) => (Due(c, s) \/ MayKey(c, s))>>,
    <<"switch",  (IsPkt(e) /\ e.ft # KEY) =>
                     ((e.ft = SWITCH) <=> SwitchDue(c, s))>>,
    <<"types",   IsPkt(e) => e.ft \in {KEY, INTER, SWITCH}>>,
    <<"drained", (e.o = "E" /\ c.drain = 1) => s.q = <<>> >>
  >>

Ok(rules) == \A i \in 1..Len(rules) : rules[i][2]
Broken(rules) == rules[CHOOSE i \in 1..Len(rules) : ~rules[i][2]][1]

AllOk(c, s, e) == /\ Ok(Rules01(c, s, e)) /\ Ok(Rules02(c, s, e))
                  /\ Ok(Rules03(c, s, e)) /\ Ok(Rules04(c, s, e))
===============================================================================
