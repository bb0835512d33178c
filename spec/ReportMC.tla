------------------------------- MODULE ReportMC -------------------------------
(***************************************************************************)
(* A reporter that keeps running counters, as the command-line encoder     *)
(* does, and an encoder that makes any frames.  Honest, its report is      *)
(* always accepted; with one lie anywhere in it, never.  (Lies are big     *)
(* enough not to vanish in the rounding of what is printed.)               *)
(***************************************************************************)
EXTENDS Report, TLC
CONSTANTS N, Sizes, QPs, FTs, Limit, Verb

Lies == {"none", "no", "ft", "len", "k", "rate", "total", "est", "drop", "twice", "psnr", "count", "size", "qp", "mean", "nomean", "norow", "last"}
VARIABLES g, at, cnt, bytes, qps, ps, all, lie, lied, row, ph
vars == <<g, at, cnt, bytes, qps, ps, all, lie, lied, row, ph>>

Rate == <<Big(30), Big(1)>>
Cfg(psnr) == [verbose |-> Verb, psnr |-> psnr, rate |-> Rate, limit |-> Big(Limit), limited |-> Limit > 0]
Zero == [t \in Types |-> 0]
Init == /\ \E p \in BOOLEAN : g = Begin(Cfg(p))
        /\ at = 0 /\ cnt = Zero /\ bytes = Zero /\ qps = Zero /\ ps = 0 /\ all = 0
        /\ lie = "?" /\ lied = FALSE /\ row = 0 /\ ph = "choose"
Choose == /\ ph = "choose"
          /\ \E x \in Lies : /\ (x \in {"psnr", "mean", "nomean"} => g.cfg.psnr)
                             /\ (x \in {"total", "est"} => g.cfg.limited)
                             /\ (Verb = 0 => x = "none")
                             /\ (Verb = 1 => x \notin {"no", "ft", "len", "psnr"})
                             /\ lie' = x
          /\ ph' = "run" /\ UNCHANGED <<g, at, cnt, bytes, qps, ps, all, lied, row>>

Rounded(x, d) == (x + d \div 2) \div d
\* the reporter's arithmetic: on machine integers, from its own counters
Prog(k, b, l) ==
    [k |-> IF l = "k" THEN k + 1 ELSE k, limited |-> g.cfg.limited,
     limit |-> IF l = "total" THEN Big(Limit + 1) ELSE Big(Limit),
     kbps |-> Big(Rounded(IF k = 0 THEN 0 ELSE (8 * b * 30) \div k, 10) + (IF l = "rate" THEN 2 ELSE 0)),
     est |-> Big(Rounded((((b * Limit) \div (IF k = 0 THEN 1 ELSE k)) \div 16) * 25, 16384) + (IF l = "est" THEN 2 ELSE 0))]

Packet(ft, s, q) ==
    /\ ph = "run" /\ at < N
    /\ at' = at + 1
    /\ cnt' = [cnt EXCEPT ![ft] = @ + 1] /\ bytes' = [bytes EXCEPT ![ft] = @ + s] /\ qps' = [qps EXCEPT ![ft] = @ + q]
    /\ ps' = ps + 300000 + s /\ all' = all + s
    /\ LET m == Made(g, [no |-> at, ft |-> ft, len |-> s, qp |-> q, psnr |-> [c \in 1..4 |-> 300000 + s]])
           line(l) == [no |-> at + (IF l = "no" THEN 1 ELSE 0), ft |-> IF l = "ft" THEN (ft + 1) % 4 ELSE ft, len |-> s + (IF l = "len" THEN 1 ELSE 0),
                       psnr |-> IF g.cfg.psnr THEN [c \in 1..3 |-> 300000 + s + (IF l = "psnr" THEN 2 ELSE 0)] ELSE <<>>] @@ Prog(at + 1, all + s, l)
       IN IF Verb = 0 THEN g' = m /\ lied' = lied
          ELSE \/ g' = Told(m, line("none")) /\ lied' = lied
               \/ ~lied /\ lie \in {"no", "ft", "len", "k", "rate", "total", "est", "psnr"} /\ g' = Told(m, line(lie)) /\ lied' = TRUE
               \/ ~lied /\ lie = "drop" /\ g' = m /\ lied' = TRUE
               \/ ~lied /\ lie = "twice" /\ g' = Told(Told(m, line("none")), line("none")) /\ lied' = TRUE
    /\ UNCHANGED <<lie, row, ph>>
Close == /\ ph = "run" /\ ph' = "rows"
         /\ IF Verb = 0 THEN g' = g /\ lied' = lied
            ELSE \/ g' = Last(g, Prog(at, all, "none")) /\ lied' = lied
                 \/ ~lied /\ lie = "last" /\ g' = Last(g, Prog(at, all, "k")) /\ lied' = TRUE
         /\ UNCHANGED <<at, cnt, bytes, qps, ps, all, lie, row>>
RowOut == /\ ph = "rows" /\ row < 4 /\ row' = row + 1
          /\ LET n == cnt[row]
                 e == [ft |-> row, n |-> n, size |-> IF n = 0 THEN 0 ELSE bytes[row] \div n, qp |-> IF n = 0 THEN 0 ELSE Rounded(100 * qps[row], n)]
             IN IF Verb = 0 THEN g' = g /\ lied' = lied
                ELSE \/ g' = Row(g, e) /\ lied' = lied
                     \/ ~lied /\ lie = "count" /\ g' = Row(g, [e EXCEPT !.n = @ + 1]) /\ lied' = TRUE
                     \/ ~lied /\ lie = "size" /\ g' = Row(g, [e EXCEPT !.size = @ + 1]) /\ lied' = TRUE
                     \/ ~lied /\ lie = "qp" /\ g' = Row(g, [e EXCEPT !.qp = @ + 3]) /\ lied' = TRUE
          /\ UNCHANGED <<at, cnt, bytes, qps, ps, all, lie, ph>>
Done == /\ ph = "rows" /\ row = 4 /\ ph' = "end"
        /\ LET mean(d) == IF g.cfg.psnr /\ Verb > 0 /\ at > 0 THEN Mean(g, [psnr |-> [c \in 1..4 |-> Rounded(ps, at) + d]]) ELSE g
               fin(m, rows, means) == End(m, [rows |-> rows, means |-> means, lines |-> 0])
               rows == IF Verb = 0 THEN 0 ELSE 4
               means == IF g.cfg.psnr /\ Verb > 0 THEN 1 ELSE 0
           IN \/ g' = fin(mean(0), rows, means) /\ lied' = lied
              \/ ~lied /\ lie = "mean" /\ at > 0 /\ g' = fin(mean(4), rows, means) /\ lied' = TRUE
              \/ ~lied /\ lie = "nomean" /\ g' = fin(g, rows, 0) /\ lied' = TRUE
              \/ ~lied /\ lie = "norow" /\ g' = fin(mean(0), 3, means) /\ lied' = TRUE
        /\ UNCHANGED <<at, cnt, bytes, qps, ps, all, lie, row>>
Next == Choose \/ Close \/ RowOut \/ Done \/ \E ft \in FTs, s \in Sizes, q \in QPs : Packet(ft, s, q)
Spec == Init /\ [][Next]_vars
Honest == ~lied => g.err = ""
Caught == ph = "end" /\ lied => g.err # ""
===============================================================================
