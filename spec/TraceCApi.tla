------------------------------- MODULE TraceCApi -------------------------------
(* Recorded sessions on the C interface, each call mirrored natively.        *)
EXTENDS CApi, COptions, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, l
vars == <<k, i, l>>
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ l = L0
S(e) == {e.cbs[n] : n \in DOMAIN e.cbs}
Same(m, e) == Check(m, e.c = e.n, "status-differs-from-the-library")
LastIs(m, x, e) == Check(m, e.last = m.last[x], "last-status-is-not-the-last")
Pkt(m, e) == IF e.c # 0 THEN Check(m, ~e.got, "packet-without-success")
             ELSE Check(Check(m, e.got, "success-without-packet"), e.pc = e.pn, "packet-differs-from-the-library")
Recd(m, e) == LET r == Record(e) IN IF r = "" THEN m ELSE Fail(m, r)
Step1(e) ==
  CASE e.o = "ctx" -> IF e.c # e.n THEN Fail(l, "context-differs-from-the-library") ELSE IF e.c THEN NewCtx(Quiet(l, S(e))) ELSE l
    [] e.o = "new" -> NewFrame(Quiet(l, S(e)), e.k)
    [] e.o = "opq" -> Opaque(l, e.k, e.id, e.cb = 1, S(e))
    [] e.o = "type" -> Check(Quiet(l, S(e)), e.c = 0, "frame-type-refused")
    [] e.o = "send" -> LastIs(Same(Send(l, e.x, e.k, e.c, S(e)), e), e.x, e)
    [] e.o = "flush" -> LastIs(Same(Flush(l, e.x, e.c, S(e)), e), e.x, e)
    [] e.o = "recv" -> LastIs(Same(Pkt(Receive(l, e.x, e.c, IF e.c = 0 /\ e.got THEN e.pc.no ELSE 0, e.opq, S(e)), e), e), e.x, e)
    [] e.o = "unref" -> Unref(l, e.k, S(e))
    [] e.o = "drop" -> DropCtx(l, e.x, S(e))
    [] e.o \in {"punref", "null", "end"} -> Quiet(l, S(e))
    [] e.o = "hdr" -> Check(Quiet(l, S(e)), e.c = e.n, "container-header-differs-from-the-library")
    [] e.o = "rcout" -> LastIs(Check(Check(Same(Quiet(l, S(e)), e), e.sc = e.sn + 8, "summary-size"),
                                     e.bc = (IF e.c = 2 THEN <<>> ELSE BE64(Len(e.bn)) \o e.bn), "statistics-differ-from-the-library"), e.x, e)
    [] e.o = "tpout" -> LastIs(Check(Quiet(l, S(e)), e.bc = e.bn, "statistics-differ-from-the-library"), e.x, e)
    [] e.o = "need" -> LastIs(Check(Quiet(l, S(e)), e.c = e.n, "requirement-differs-from-the-library"), e.x, e)
    [] e.o = "rcin" -> LET m == Recd(Quiet(l, S(e)), e) IN LastIs(IF Whole(e) THEN [m EXCEPT !.last[e.x] = e.n] ELSE m, e.x, e)
    [] e.o = "tpin" -> LastIs([Check(Check(Quiet(l, S(e)), e.c = e.n, "bytes-taken-differ-from-the-library"), e.nc = e.nn, "requirement-differs-from-the-library")
                                 EXCEPT !.last[e.x] = e.st], e.x, e)
    [] e.o = "sum" -> Recd(l, e)
    [] e.o = "reset" -> Check(l, e.c = 0, "reset-refused")
    [] e.o = "over" -> [Over(Quiet(l, S(e))) EXCEPT !.pend = <<>>, !.last = <<>>, !.fr = <<>>, !.loose = {}]
    [] e.o = "mem" -> Check(l, NothingLeft(e.before, e.after, e.threads), "memory-leaked")
    [] e.o = "left" -> Check(l, e.after <= e.before + 8192, "memory-leaked")
    \* options
    [] e.o = "opt" -> LET r == Judge(IF e.int THEN IntCall(e.key, e.txt) ELSE Text(e.key, e.txt),
                                     [r |-> e.r, diff |-> {e.diff[n] : n \in DOMAIN e.diff}, vals |-> e.vals, sp |-> e.sp, presets |-> Sessions[k].presets,
                                      sub |-> {e.sub[n] : n \in DOMAIN e.sub}]) IN IF r = "" THEN l ELSE Fail(l, r)
    [] e.o = "set" -> LET r == Setter([r |-> e.r, refuse |-> e.refuse, want |-> e.want, text |-> e.text,
                                       diff |-> {e.diff[n] : n \in DOMAIN e.diff}, parents |-> {e.parents[n] : n \in DOMAIN e.parents}]) IN IF r = "" THEN l ELSE Fail(l, r)
    [] e.o = "raw" -> Check(Check(l, e.r < 0, "meaningless-option-accepted"), e.diff = <<>>, "refused-option-changed-the-configuration")
    [] e.o = "use" -> Check(l, (e.r = 0) = e.n, "configuration-not-usable")
    [] e.o = "strs" -> Check(l, \A a, b \in DOMAIN e.s : e.s[a] # "" /\ (a # b => e.s[a] # e.s[b]), "status-texts")
    [] OTHER -> Fail(l, "unknown-event")
Step == /\ i <= Len(Sessions[k].ev)
        /\ LET m == Step1(Sessions[k].ev[i])
           IN /\ l' = m
              /\ IF m.err # ""
                 THEN /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o m.err)
                      /\ i' = Len(Sessions[k].ev) + 2
                 ELSE /\ i' = i + 1
                      /\ IF i = Len(Sessions[k].ev)
                         THEN IF Sessions[k].ev[i].o \in {"over", "strs", "mem", "left"} \/ Sessions[k].cut THEN PrintT("ACCEPT " \o ToString(k))
                              ELSE PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " session-cut-short")
                         ELSE TRUE
        /\ k' = k
TSpec == TInit /\ [][Step]_vars
===============================================================================
