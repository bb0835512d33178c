-------------------------------- MODULE TwoPass --------------------------------
(***************************************************************************)
(* The statistics protocol of two-pass encoding.                           *)
(*                                                                         *)
(* A session is a first pass followed by further passes over the same      *)
(* video.  A pass c is [emit, second, delay, head]: it emits statistics,   *)
(* it consumes those of the pass before, the reservoir delay in temporal   *)
(* units (0: the whole stream), and whether the summary comes with the     *)
(* configuration or in the bytes of the statistics file.  A record is      *)
(* [fti, show]: the kind of a coded frame (0 key, 1..3 inter layers, 4     *)
(* shown from memory) and whether it is shown.                             *)
(*                                                                         *)
(* Events, r being the observed result:                                    *)
(*   N  a new pass with parameters c starts                                *)
(*   S  send a frame    F  flush                                           *)
(*   R  request a packet; when a frame was coded: sef, key (0/1)           *)
(*   G  take pass data: frame (rec) | summary (sum) | none                 *)
(*   T  the same by the byte interface (adds: placeholder)                 *)
(*   Q  how many records are needed: n                                     *)
(*   I  the next record is offered    B  a damaged record is offered       *)
(*   Y  how many bytes are needed: n                                       *)
(*   J  len bytes of the statistics file are offered: consumed             *)
(*   E  end of a pass, reached by draining                                 *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, TLC

HEAD == 68      \* size of the summary in bytes
PACK == 8       \* size of a record

Pass0 == [emit |-> 0, second |-> 0, delay |-> 0, head |-> 1]
Init0 == [ c |-> Pass0, prev |-> <<>>,       \* parameters; records of the pass before
           recs |-> <<>>, pend |-> FALSE, last |-> [fti |-> 0, show |-> 0, sef |-> 0, key |-> 0],
           sums |-> 0,
           sup |-> 0, coded |-> 0, bytes |-> 0, shown |-> 0,
           acc |-> 0, del |-> 0, acc0 |-> 0, fl |-> FALSE ]

Coded(e) == e.o = "R" /\ e.r \in {"pkt", "Encoded"}
Done(s) == s.fl /\ s.del = s.acc

RECURSIVE ShownIn(_, _, _)
ShownIn(q, a, b) == IF a > b THEN 0 ELSE q[a].show + ShownIn(q, a + 1, b)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Total(s) == Len(s.prev)
Ntus(q) == ShownIn(q, 1, Len(q))
Window(s) == Min(s.c.delay, Ntus(s.prev))

\* records to supply before the next frame can be coded
Need(s) == IF s.c.second = 0 \/ Done(s) THEN 0
           ELSE IF s.c.delay = 0 THEN (IF s.sup <= s.coded THEN 1 ELSE 0)
           ELSE Max(0, Min(Window(s) - ShownIn(s.prev, s.coded + 1, s.sup), Total(s) - s.sup))

Count(q, t) == Cardinality({ i \in 1..Len(q) : q[i].fti = t })

SumsMatch(s, m) ==
    /\ m.ntus = Ntus(s.recs)
    /\ \A t \in 0..4 : m.nframes[t + 1] = Count(s.recs, t)
    /\ \A t \in 0..3 : m.exp[t + 1] > 0
    /\ \A t \in 0..3 : m.nframes[t + 1] = 0 => m.zero[t + 1] = 1

Takes(s, e) == IF s.pend THEN e.r = "frame"
               ELSE IF Done(s) /\ (e.o = "G" \/ s.sums = 0) THEN e.r = "summary"
               ELSE e.r = "none" \/ (e.o = "T" /\ e.r = "placeholder" /\ s.coded = 0)

RecordOk(s, rec) == /\ rec.len = PACK /\ rec.fti \in 0..4 /\ rec.show \in {0, 1}
                    /\ rec.show = s.last.show
                    /\ (rec.fti = 4) = (s.last.sef = 1)
                    /\ (rec.fti = 0) = (s.last.key = 1)

\* number of whole records in the first b bytes of the statistics file
InBytes(b) == IF b < HEAD THEN 0 ELSE (b - HEAD) \div PACK

Rules10(s, e) ==
    CASE e.o = "R" -> <<
            <<"panic", e.r # "panic">>,
            <<"coded-before-record-was-taken", Coded(e) /\ s.c.emit = 1 => ~s.pend>>,
            <<"coded-without-record", Coded(e) /\ s.c.second = 1 => s.sup > s.coded>>,
            <<"not-ready-without-cause", e.r = "NotReady" => (s.c.emit = 1 /\ s.pend) \/ Need(s) > 0>>,
            <<"starved-after-flush", e.r = "NeedMoreData" => ~s.fl>>,
            <<"ended-early", e.r = "LimitReached" => Done(s)>>,
            <<"failed", e.r \in {"pkt", "Encoded", "NeedMoreData", "LimitReached", "NotReady"}>> >>
      [] e.o \in {"G", "T"} -> <<
            <<"panic", e.r # "panic">>,
            <<"wrong-pass-data", Takes(s, e)>>,
            <<"record-does-not-describe-frame", e.r = "frame" => RecordOk(s, e.rec)>>,
            <<"summary-totals-wrong", e.r = "summary" /\ s.c.emit = 1 => e.len = HEAD /\ SumsMatch(s, e.sum)>> >>
      [] e.o = "Q" -> <<
            <<"asks-beyond-first-pass", s.c.second = 1 => e.n <= Total(s) - s.sup>>,
            <<"asks-wrong-number", e.n = Need(s)>> >>
      [] e.o = "Y" -> <<
            <<"asks-beyond-first-pass", e.n <= HEAD + PACK * Total(s) - s.bytes>>,
            <<"no-bytes-asked-though-records-missing", e.n = 0 => Need(s) = 0>> >>
      [] e.o = "I" -> << <<"good-record-refused", e.r = "ok">> >>
      [] e.o = "B" -> << <<"damaged-record-accepted", e.r = "Failure">> >>
      [] e.o = "J" -> <<
            <<"good-bytes-refused", e.r = "ok">>,
            <<"consumed-more-than-offered", e.consumed <= e.len>> >>
      [] e.o = "S" -> << <<"frame-refused", e.r = IF s.fl THEN "EnoughData" ELSE "ok">> >>
      [] e.o = "F" -> << <<"flush-failed", e.r = "ok">> >>
      [] e.o = "N" -> << <<"refused", e.r = "ok">> >>
      [] e.o = "E" -> <<
            <<"frames-missing", s.del = s.acc /\ s.fl>>,
            <<"second-pass-incomplete", s.c.second = 1 => s.coded = Total(s) /\ s.acc = s.acc0>> >>
      [] OTHER -> << <<"unexpected", FALSE>> >>

Apply(s, e) ==
    CASE e.o = "N" ->
            [Init0 EXCEPT !.c = e.c, !.prev = s.recs, !.acc0 = s.acc,
                          !.bytes = IF e.c.head = 1 THEN HEAD ELSE 0]
      [] e.o = "S" -> IF e.r = "ok" THEN [s EXCEPT !.acc = @ + 1] ELSE s
      [] e.o = "F" -> [s EXCEPT !.fl = TRUE]
      [] Coded(e) -> [s EXCEPT !.coded = @ + 1, !.pend = (s.c.emit = 1),
                               !.last = [fti |-> 0, show |-> IF e.r = "pkt" THEN 1 ELSE 0, sef |-> e.sef, key |-> e.key],
                               !.del = @ + (IF e.r = "pkt" THEN 1 ELSE 0)]
      [] e.o \in {"G", "T"} /\ e.r = "frame" ->
            [s EXCEPT !.pend = FALSE, !.recs = Append(@, [fti |-> e.rec.fti, show |-> e.rec.show])]
      [] e.o \in {"G", "T"} /\ e.r = "summary" -> [s EXCEPT !.sums = @ + 1]
      [] e.o = "I" -> [s EXCEPT !.sup = @ + 1]
      [] e.o = "J" -> [s EXCEPT !.bytes = @ + e.consumed, !.sup = InBytes(s.bytes + e.consumed)]
      [] OTHER -> s

----------------------------------------------------------------------------
(***************************************************************************)
(* When is a serialised summary (a sequence of bytes) acceptable?          *)
(***************************************************************************)
MAGIC   == <<86, 65, 50, 80>>            \* 0x50324156, little endian
VERSION == <<1, 0, 0, 0>>
Le32(b, i) == Add(Add(Big(b[i]), Mul(Big(b[i + 1]), Pow2(8))), Add(Mul(Big(b[i + 2]), Pow2(16)), Mul(Big(b[i + 3]), Pow2(24))))
Neg32(b, i) == b[i + 3] >= 128
Counts(b) == [t \in 0..4 |-> Le32(b, 13 + 4 * t)]
WellFormed(b) ==
    /\ Len(b) >= HEAD
    /\ SubSeq(b, 1, 4) = MAGIC
    /\ SubSeq(b, 5, 8) = VERSION
    /\ ~Neg32(b, 9) /\ Le32(b, 9) # <<>>
    /\ \A t \in 0..4 : ~Neg32(b, 13 + 4 * t)
    /\ LET n == Counts(b)
           tot == Add(Add(Add(n[0], n[1]), Add(n[2], n[3])), n[4])
       IN Lt(tot, Pow2(31)) /\ Leq(Le32(b, 9), tot)
    /\ \A t \in 0..3 : b[33 + t] # 0
    /\ \A t \in 0..3 : b[37 + 8 * t + 7] < 128

\* what a first pass can have written: the exponents of the rate model, and no
\* frame with a scale above 2^16 (in Q24)
Le64(b, i) == Add(Le32(b, i), Mul(Le32(b, i + 4), Pow2(32)))
Plausible(b) ==
    /\ WellFormed(b)
    /\ \A t \in 0..3 : b[33 + t] \in 48..139
    /\ \A t \in 0..3 : Leq(Le64(b, 37 + 8 * t), Mul(Counts(b)[t], Pow2(40)))

(***************************************************************************)
(* Damaged statistics.  Events: D a summary (bytes b) is offered; W a      *)
(* second pass ran on arbitrary statistics and ended with r.               *)
(***************************************************************************)
Rules10d(e) ==
    CASE e.o = "D" -> <<
            <<"malformed-summary-accepted", e.r = "ok" => WellFormed(e.b)>>,
            <<"summary-refused", e.r # "ok" => ~Plausible(e.b)>>,
            <<"panic", e.r \in {"ok", "err"}>> >>
      [] e.o = "W" -> << <<"second-pass-broken-by-statistics", e.r \in {"done", "starved", "refused"}>> >>
===============================================================================
