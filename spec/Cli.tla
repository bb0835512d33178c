---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command-line encoder.                                               *)
(*                                                                         *)
(* An invocation has options o (a record holding only the options given)   *)
(* and an input v (the facts of the video file).  Meaning(o, v) is the     *)
(* encoder configuration the options stand for, Refusals(o, v) the reasons *)
(* for an error exit, Selected(o, v) the number of frames to encode.       *)
(*                                                                         *)
(* The process is a machine over its files: it asks for consent, opens the *)
(* output, writes a header, reads and encodes frames, writes a packet per  *)
(* frame, a picture per packet into the reconstruction and a record per    *)
(* temporal unit into the statistics file, then the summary in front, and  *)
(* exits.                                                                  *)
(***************************************************************************)
EXTENDS ConfigRules, FiniteSets

Has(o, x) == x \in DOMAIN o
Opt(o, x, d) == IF x \in DOMAIN o THEN o[x] ELSE d
Min(a, b) == IF a < b THEN a ELSE b
BMin(a, b) == IF Lt(a, b) THEN a ELSE b
NoMaxKf == MaxKf
I32Max == 2147483647

(*----------------------------- the input file ----------------------------*)
\* v: w, h, rate <<num, den>> Big, sar <<num, den>> Big, tag, n (complete frames),
\*    bad: "" | "missing" | "magic" | "size" | "colour" | "empty" | "ratio" ; junk: garbage follows the frames
Tag(t) == CASE t = "mono"     -> [cs |-> 400, bd |-> 8,  csp |-> 0]
            [] t = "mono12"   -> [cs |-> 400, bd |-> 12, csp |-> 0]
            [] t = "420"      -> [cs |-> 420, bd |-> 8,  csp |-> 2]
            [] t = "420jpeg"  -> [cs |-> 420, bd |-> 8,  csp |-> 0]
            [] t = "420paldv" -> [cs |-> 420, bd |-> 8,  csp |-> 0]
            [] t = "420mpeg2" -> [cs |-> 420, bd |-> 8,  csp |-> 1]
            [] t = "420p10"   -> [cs |-> 420, bd |-> 10, csp |-> 2]
            [] t = "420p12"   -> [cs |-> 420, bd |-> 12, csp |-> 2]
            [] t = "422"      -> [cs |-> 422, bd |-> 8,  csp |-> 2]
            [] t = "422p10"   -> [cs |-> 422, bd |-> 10, csp |-> 2]
            [] t = "422p12"   -> [cs |-> 422, bd |-> 12, csp |-> 2]
            [] t = "444"      -> [cs |-> 444, bd |-> 8,  csp |-> 2]
            [] t = "444p10"   -> [cs |-> 444, bd |-> 10, csp |-> 2]
            [] t = "444p12"   -> [cs |-> 444, bd |-> 12, csp |-> 2]

(*---------------------------- what options mean --------------------------*)
\* chromaticities in 1/10000 become 0.16 fixed point, luminances 24.8 and 18.14
Fix16(a) == Min(65535, (2 * a * 65536 + 10000) \div 20000)
Fix14(a) == (2 * a * 16384 + 10000) \div 20000
\* the option lists green, blue, red; the configuration red, green, blue
Mastering(m) == <<Fix16(m[5]), Fix16(m[6]), Fix16(m[1]), Fix16(m[2]), Fix16(m[3]), Fix16(m[4]),
                  Fix16(m[7]), Fix16(m[8]), 256 * m[9], Fix14(m[10])>>

LevelOf(l) == IF l = <<>> THEN -1 ELSE IF l = <<31>> THEN 31 ELSE 4 * (l[1] - 2) + l[2]
LevelOk(l) == l \in {<<>>, <<31>>} \/ (l[1] \in 2..7 /\ l[2] \in 0..3)

KbitOk(o) == Opt(o, "bitrate", 0) <= I32Max \div 1000

Meaning(o, v) ==
    LET t == Tag(v.tag)
        maxkf == Opt(o, "keyint", Big(240))
        minkf == Opt(o, "min_keyint", Big(12))
    IN [ w |-> v.w, h |-> v.h, bd |-> t.bd, cs |-> t.cs, csp |-> t.csp,
         sar |-> IF v.sar = <<<<>>, <<>>>> THEN <<Big(1), Big(1)>> ELSE v.sar,
         tb |-> IF Has(o, "frame_rate") THEN <<Opt(o, "time_scale", Big(1)), o.frame_rate>> ELSE <<v.rate[2], v.rate[1]>>,
         full |-> Opt(o, "full", 0),
         color |-> LET c == <<Opt(o, "primaries", 2), Opt(o, "transfer", 2), Opt(o, "matrix", 2)>>
                   IN IF c = <<2, 2, 2>> THEN <<>> ELSE c,
         mdcv |-> IF Has(o, "mastering") THEN Mastering(o.mastering) ELSE <<>>,
         cll |-> IF Opt(o, "cll", <<0, 0>>) = <<0, 0>> THEN <<>> ELSE o.cll,
         level |-> LevelOf(Opt(o, "level", <<>>)),
         timing |-> 0, still |-> Opt(o, "still", 0), ll |-> Opt(o, "low_latency", 0), er |-> 0,
         switch |-> Opt(o, "switch", 0),
         maxkf |-> IF maxkf = <<>> THEN NoMaxKf ELSE maxkf,
         minkf |-> IF maxkf = <<>> THEN minkf ELSE BMin(minkf, maxkf),
         rfd |-> Opt(o, "reservoir", -1),
         speed |-> Opt(o, "speed", 6),
         q |-> Opt(o, "quantizer", IF Has(o, "bitrate") THEN 255 ELSE 100),
         minq |-> Opt(o, "min_quantizer", 0),
         br |-> IF KbitOk(o) THEN 1000 * Opt(o, "bitrate", 0) ELSE 0,
         tune |-> Opt(o, "tune", 1),
         tcols |-> Opt(o, "tile_cols", 0), trows |-> Opt(o, "tile_rows", 0), tiles |-> Opt(o, "tiles", 0),
         la |-> Opt(o, "lookahead", <<>>),       \* <<>>: the speed's own
         scd |-> IF Has(o, "no_scd") THEN 0      \* 0 none, 1 fast, 2 standard, -1: the speed's own
                 ELSE IF Has(o, "scd_speed") THEN 2 - o.scd_speed ELSE -1,
         photon |-> Opt(o, "photon", 0),
         table |-> Opt(o, "table", 0),
         pass |-> (IF Has(o, "first") THEN 1 ELSE 0) + (IF Has(o, "second") THEN 2 ELSE 0) ]

\* the same configuration as the refusal rules see it
Rules(m) == [ w |-> m.w, h |-> m.h, still |-> m.still, ll |-> m.ll, timing |-> m.timing, full |-> m.full,
              sar |-> m.sar, tb |-> m.tb, la |-> IF m.la = <<>> THEN Big(10) ELSE m.la, maxkf |-> m.maxkf,
              tcols |-> Big(m.tcols), trows |-> Big(m.trows), rfd |-> m.rfd, switch |-> m.switch,
              color |-> IF m.color = <<>> THEN 0 ELSE IF m.color = <<1, 13, 0>> THEN 1 ELSE IF m.color[3] = 0 THEN 3 ELSE 2,
              cs |-> m.cs, level |-> m.level, br |-> m.br, pass |-> m.pass, bd |-> m.bd ]

(*------------------------- reasons for an error exit ---------------------*)
Refusals(o, v) ==
    { r \in { "input", "lossless", "speed", "bitrate", "pass-without-bitrate", "level", "tiles", "still-limit", "skip",
              "lookahead", "config", "statistics", "table", "extension", "conflict", "output" } :
        CASE r = "input" -> v.bad # ""
          [] r = "lossless" -> Opt(o, "quantizer", 1) = 0
          [] r = "speed" -> Opt(o, "speed", 6) > 10
          [] r = "bitrate" -> ~KbitOk(o)
          [] r = "pass-without-bitrate" -> (Has(o, "first") \/ Has(o, "second")) /\ Opt(o, "bitrate", 0) <= 0
          [] r = "level" -> ~LevelOk(Opt(o, "level", <<>>))
          [] r = "tiles" -> Opt(o, "tile_cols", 0) > 64 \/ Opt(o, "tile_rows", 0) > 64
          [] r = "still-limit" -> Opt(o, "still", 0) = 1 /\ Lt(Big(1), Opt(o, "limit", <<>>))
          [] r = "skip" -> v.bad = "" /\ Lt(Big(v.n), Opt(o, "skip", <<>>))
          [] r = "lookahead" -> Has(o, "lookahead") /\ o.lookahead = <<>>
          [] r = "config" -> v.bad = "" /\ LevelOk(Opt(o, "level", <<>>)) /\ Broken(Rules(Meaning(o, v))) # {}
          [] r = "statistics" -> Opt(o, "second", "good") = "bad"
          [] r = "table" -> Opt(o, "table", 0) < 0
          [] r = "extension" -> Opt(o, "ext", "ivf") \notin {"ivf", "IVF", "", "-"}
          [] r = "conflict" -> \/ Has(o, "tiles") /\ (Has(o, "tile_cols") \/ Has(o, "tile_rows"))
                               \/ Has(o, "quiet") /\ Has(o, "verbose")
                               \/ Has(o, "psnr") /\ Has(o, "metrics")
                               \/ Has(o, "table") /\ Has(o, "photon")
                               \/ Has(o, "load") /\ Has(o, "save")
          [] r = "output" -> Has(o, "nodir") \/ Has(o, "sink") }      \* a file that cannot be created, or takes nothing

\* frames to encode: those after the skipped ones, up to the limit; a still picture is one frame
Selected(o, v) ==
    LET skip == Opt(o, "skip", <<>>)
        lim  == Opt(o, "limit", <<>>)
        rest == IF Lt(Big(v.n), skip) THEN <<>> ELSE Sub(Big(v.n), skip)
        k    == IF lim = <<>> THEN rest ELSE BMin(lim, rest)
        nat  == CHOOSE i \in 0..v.n : Big(i) = k
    IN IF Opt(o, "still", 0) = 1 THEN Min(1, nat) ELSE nat

\* damage behind the complete frames is an error unless the limit is reached first
JunkHit(o, v) ==
    /\ v.junk = 1
    /\ LET lim == Opt(o, "limit", <<>>)
           rest == IF Lt(Big(v.n), Opt(o, "skip", <<>>)) THEN <<>> ELSE Sub(Big(v.n), Opt(o, "skip", <<>>))
       IN lim = <<>> \/ Lt(rest, lim)

MustFail(o, v) == Refusals(o, v) # {} \/ JunkHit(o, v)
===============================================================================
