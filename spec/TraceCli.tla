--------------------------------- MODULE TraceCli ---------------------------------
(***************************************************************************)
(* Recorded invocations of the real command-line encoder.  An event:       *)
(*   o, v      options and input facts                                     *)
(*   exit      "ok" "err" "killed" "stuck"                                 *)
(*   old, consent   what the output file was before (a hash, "" when        *)
(*             absent) and what the user said: "flag" "yes" "no"           *)
(*   out       the output file: ex hash head w h rate pts ph rest dec derr *)
(*   ref       packets the library gives for the same frames and           *)
(*             configuration: end pk                                       *)
(*   rec       reconstruction file: ex line pics rest (line as expected:   *)
(*             recline)                                                    *)
(*   stats     <<file, expected>>                                          *)
(*   saved     the saved configuration, or <<>>                            *)
(*   asked     termination was requested after this many frames, or -1     *)
(***************************************************************************)
EXTENDS Cli, Json, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)

K0 == [err |-> ""]
Check(g, b, r) == IF g.err # "" \/ b THEN g ELSE [g EXCEPT !.err = r]

Saved(m, s) ==
    /\ s.w = m.w /\ s.h = m.h /\ s.bd = m.bd /\ s.cs = m.cs /\ s.csp = m.csp
    /\ s.sar = m.sar /\ s.tb = m.tb /\ s.full = m.full /\ s.color = m.color
    /\ s.mdcv = m.mdcv /\ s.cll = m.cll /\ s.level = m.level /\ s.still = m.still
    /\ s.ll = m.ll /\ s.switch = m.switch /\ s.maxkf = m.maxkf /\ s.minkf = m.minkf
    /\ s.rfd = m.rfd /\ s.q = m.q /\ s.minq = m.minq /\ s.br = m.br /\ s.tune = m.tune
    /\ s.tcols = m.tcols /\ s.trows = m.trows /\ s.tiles = m.tiles
    /\ s.timing = m.timing /\ s.er = m.er
    /\ (m.la # <<>> => s.la = m.la) /\ (m.scd # -1 => s.scd = m.scd)

\* an interrupted encode ends with the frames read by then, or one more
Count(e) == IF e.asked = -1 THEN {Selected(e.o, e.v)}
            ELSE {i \in {e.asked, e.asked + 1} : i <= Selected(e.o, e.v)}

Success(g, e) ==
    LET m == Meaning(e.o, e.v)
        x == e.out
        a == Check(g, x.ex = 1 /\ x.head = 1, "no-ivf-header")
        b == Check(a, a.err # "" \/ (x.w = e.v.w /\ x.h = e.v.h), "ivf-size")
        c == Check(b, b.err # "" \/ x.rate = <<m.tb[2], m.tb[1]>>, "ivf-frame-rate")
        d == Check(c, c.err # "" \/ x.rest = 0, "ivf-trailing-bytes")
        f == Check(d, d.err # "" \/ Len(x.pts) \in Count(e), "number-of-frames")
        h == Check(f, f.err # "" \/ \A i \in 1..Len(x.pts) : x.pts[i] = i - 1, "timestamps")
        i == Check(h, h.err # "" \/ e.ref.end = "none" \/ (e.ref.end = "ok" /\ e.ref.pk = x.ph), "packets-differ-from-library")
        j == Check(i, i.err # "" \/ e.rec.ex = 0 \/ (x.derr = 0 /\ e.rec.line = e.recline), "reconstruction-header")
        l == Check(j, j.err # "" \/ e.rec.ex = 0 \/ (e.rec.rest = 0 /\ e.rec.pics = x.dec), "reconstruction-pictures")
        n == Check(l, l.err # "" \/ e.stats[1] = e.stats[2], "statistics-file")
        p == Check(n, n.err # "" \/ x.derr = 0, "undecodable")
    IN Check(p, ~Has(e.o, "rec") \/ e.rec.ex = 1, "no-reconstruction")

SavedOk(e) == e.saved = <<>> \/ Saved(Meaning(e.o, e.v), e.saved[1])

Judge(g, e) ==
    IF e.exit \notin {"ok", "err"} THEN [g EXCEPT !.err = "killed-or-stuck"]
    ELSE IF e.old # "" /\ e.consent \notin {"flag", "yes"}
    THEN Check(Check(g, e.out.hash = e.old, "overwritten-without-consent"), e.exit = "err", "success-without-consent")
    ELSE IF Opt(e.o, "second", "good") = "wild" THEN g     \* damage that may go unnoticed: an orderly end is enough
    ELSE IF Opt(e.o, "second", "good") = "cut" /\ e.exit = "err" THEN g
    ELSE IF MustFail(e.o, e.v) THEN Check(g, e.exit = "err", "accepted-what-must-fail")
    ELSE Check(IF e.exit = "ok" THEN Success(g, e) ELSE [g EXCEPT !.err = "failed-what-must-work"],
               SavedOk(e), "saved-configuration")

VARIABLES k, i, g
vars == <<k, i, g>>
TInit == k \in 1..Len(Sessions) /\ i = 1 /\ g = K0
Step == /\ i <= Len(Sessions[k].ev)
        /\ LET n == Judge(g, Sessions[k].ev[i])
           IN /\ g' = n
              /\ IF n.err # ""
                 THEN /\ PrintT("REJECT " \o ToString(k) \o " " \o ToString(i) \o " " \o n.err)
                      /\ i' = Len(Sessions[k].ev) + 2
                 ELSE /\ i' = i + 1
                      /\ IF i = Len(Sessions[k].ev) THEN PrintT("ACCEPT " \o ToString(k)) ELSE TRUE
        /\ k' = k
TSpec == TInit /\ [][Step]_vars
===============================================================================
