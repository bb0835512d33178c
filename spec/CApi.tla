--------------------------------- MODULE CApi ---------------------------------
(* The C interface: who owns each opaque pointer, which status the last
   query reports, how a length-prefixed record is taken from a buffer.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Range(f) == {f[x] : x \in DOMAIN f}
None == [id |-> 0, cb |-> FALSE]
(* fr: frame -> opaque it carries; pend: context -> opaques of the frames it
   took, in order of their numbers; last: context -> status; loose: opaques
   whose owner no rule decides (refused with no callback to tell);
   gone: those handed back or released, ever: all that were given.          *)
L0 == [err |-> "", fr |-> <<>>, pend |-> <<>>, last |-> <<>>, loose |-> {}, gone |-> {}, ever |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Fail(l, r) == IF l.err = "" THEN [l EXCEPT !.err = r] ELSE l
Check(l, b, r) == IF b THEN l ELSE Fail(l, r)
Called(o) == IF o.id # 0 /\ o.cb THEN {o.id} ELSE {}
Ids(o) == IF o.id # 0 THEN {o.id} ELSE {}
Away(l, o) == [l EXCEPT !.gone = @ \cup Ids(o)]
(* cbs: the set of opaques released during the call                        *)
Opaque(l, k, id, cb, cbs) ==
  LET o == l.fr[k]
      \* a null pointer takes the previous one away
      m == [Away(l, o) EXCEPT !.fr = Put(l.fr, k, IF id = 0 THEN None ELSE [id |-> id, cb |-> cb]), !.ever = @ \cup (IF id = 0 THEN {} ELSE {id})]
  IN Check(m, cbs = Called(o), "replaced-opaque-not-released-once")
NewFrame(l, k) == [l EXCEPT !.fr = Put(@, k, None)]
Unref(l, k, cbs) ==
  Check([Away(l, l.fr[k]) EXCEPT !.fr = Without(@, k)], cbs = Called(l.fr[k]), "unsent-opaque-not-released-once")
NewCtx(l) == [l EXCEPT !.pend = Append(@, <<>>), !.last = Append(@, 0)]
Send(l, x, k, c, cbs) ==
  LET o == l.fr[k]
  IN IF c = 0
     THEN Check([l EXCEPT !.fr = Put(@, k, None), !.pend[x] = Append(@, o), !.last[x] = c], cbs = {}, "released-while-pending")
     ELSE LET m == [l EXCEPT !.last[x] = c] IN
          IF cbs = {} /\ o.id # 0 /\ o.cb THEN m                           \* stays with its frame
          ELSE IF o.id # 0 /\ ~o.cb
          THEN Check([m EXCEPT !.fr = Put(@, k, None), !.loose = @ \cup {o.id}, !.gone = @ \cup {o.id}], cbs = {}, "released-without-callback")
          ELSE Check([Away(m, o) EXCEPT !.fr = Put(@, k, None)], cbs = Called(o), "refused-opaque-not-released-once")
Flush(l, x, c, cbs) == Check([l EXCEPT !.last[x] = c], cbs = {}, "flush-releases")
Receive(l, x, c, no, opq, cbs) ==
  IF c # 0 THEN Check([l EXCEPT !.last[x] = c], cbs = {}, "released-while-pending")
  ELSE IF no + 1 > Len(l.pend[x]) THEN Fail(l, "packet-of-no-frame")
  ELSE LET o == l.pend[x][no + 1]
           m == [Away(l, [id |-> opq, cb |-> FALSE]) EXCEPT !.pend[x][no + 1] = None, !.last[x] = c]
       IN Check(Check(m, opq = o.id \/ (o.id = 0 /\ opq \in l.loose), "packet-hands-back-the-wrong-opaque"), cbs = {}, "released-and-handed-back")
DropCtx(l, x, cbs) ==
  LET os == Range(l.pend[x])
  IN Check([l EXCEPT !.pend[x] = <<>>, !.gone = @ \cup UNION {Ids(o) : o \in os}],
           cbs = UNION {Called(o) : o \in os}, "pending-opaque-not-released-once")
Quiet(l, cbs) == Check(l, cbs = {}, "released-out-of-turn")
(* Bytes allocated after doing all of it twice and eight times: everything  *)
(* was given back, save what the threads' pools free on their own time.     *)
NothingLeft(before, after, threads) == after <= before + 16384 + 20480 * threads
Over(l) == Check(l, l.ever = l.gone, "opaque-leaked")
(* ----------------------------------------------------------------------- *)
(* A record of 8 bytes of length, most significant first, then its bytes.   *)
BigLen(h) == h[1] # 0 \/ h[2] # 0 \/ h[3] # 0 \/ h[4] # 0 \/ h[5] > 126
LenOf(h) == ((h[5] * 256 + h[6]) * 256 + h[7]) * 256 + h[8]
Record(e) ==
  IF e.avail < 8 THEN IF e.c >= 8 /\ e.moved = 0 /\ e.shrunk = 0 THEN "" ELSE "short-record-not-announced"
  ELSE IF BigLen(e.head) THEN IF e.c # 0 /\ e.moved = 0 /\ e.shrunk = 0 THEN "" ELSE "impossible-record-taken"
  ELSE IF e.avail < 8 + LenOf(e.head)
  THEN IF e.c > e.avail /\ e.c <= 8 + LenOf(e.head) /\ e.moved = 0 /\ e.shrunk = 0 THEN "" ELSE "short-record-not-announced"
  ELSE IF e.moved # e.shrunk THEN "pointer-and-length-disagree"
  ELSE IF e.n = 0
  THEN IF e.c = 0 /\ e.moved = 8 + LenOf(e.head) THEN "" ELSE "record-not-taken"
  ELSE IF e.c < 0 THEN "" ELSE "refused-record-not-reported"
Whole(e) == e.avail >= 8 /\ ~BigLen(e.head) /\ e.avail >= 8 + LenOf(e.head)
BE64(n) == <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
=============================================================================
