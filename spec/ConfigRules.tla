------------------------------ MODULE ConfigRules ------------------------------
(***************************************************************************)
(* Which encoder configurations are to be refused, and for what reason.    *)
(* A configuration c is a record; settings that may exceed 32 bits are     *)
(* BigNat numbers:                                                         *)
(*   w, h          picture size              still, ll, timing, full 0/1   *)
(*   sar           <<num, den>> Big          tb     <<num, den>> Big       *)
(*   la, maxkf     Big                       tcols, trows  Big             *)
(*   rfd           reservoir delay or -1     switch                        *)
(*   color         0 none, 1 the sRGB triple, 2 another description,       *)
(*                 3 another description with the identity matrix          *)
(*   cs            400, 420, 422, 444        level  -1: none               *)
(*   br            bitrate                   pass   statistics: 0 none,    *)
(*   bd            bit depth                        1 out, 2 in, 3 both     *)
(***************************************************************************)
EXTENDS BigNat

MaxDim == 65535
U32Max == Sub(Pow2(32), Big(1))
MaxKf  == Big(715827882)          \* a third of the largest i32
MaxLa  == Sub(Pow2(64), Big(2))

IsPow2(b) == b = <<>> \/ \E k \in 0..63 : b = Pow2(k)

\* AV1 Annex A, levels 2.0 2.1 3.0 3.1 4.0 4.1 5.0-5.3 6.0-6.3
Levels == {0, 1, 4, 5, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19}
Unlimited == 31
MaxPic(l) == CASE l = 0 -> 147456 [] l = 1 -> 278784 [] l = 4 -> 665856
               [] l = 5 -> 1065024 [] l \in {8, 9} -> 2359296
               [] l \in 12..15 -> 8912896 [] l \in 16..19 -> 35651584
MaxH(l) == CASE l = 0 -> 2048 [] l = 1 -> 2816 [] l = 4 -> 4352 [] l = 5 -> 5504
             [] l \in {8, 9} -> 6144 [] l \in 12..15 -> 8192 [] l \in 16..19 -> 16384
MaxV(l) == CASE l = 0 -> 1152 [] l = 1 -> 1584 [] l = 4 -> 2448 [] l = 5 -> 3096
             [] l \in {8, 9} -> 3456 [] l \in 12..15 -> 4352 [] l \in 16..19 -> 8704
\* luma samples displayed per second
MaxRate(l) == CASE l = 0 -> Big(4423680) [] l = 1 -> Big(8363520) [] l = 4 -> Big(19975680)
                [] l = 5 -> Big(31950720) [] l = 8 -> Big(70778880) [] l = 9 -> Big(141557760)
                [] l = 12 -> Big(267386880) [] l = 13 -> Big(534773760)
                [] l \in {14, 15} -> Big(1069547520)
                [] l = 16 -> Big(1069547520) [] l = 17 -> Mul(Big(1069547520), Big(2))
                [] l \in {18, 19} -> Mul(Big(1069547520), Big(4))

MinDim(c) == IF c.still = 1 THEN 1 ELSE 16
Pixels(c) == Mul(Big(c.w), Big(c.h))

\* rendered size: one side is stretched by the aspect ratio, rounding halves up
Wider(c) == Lt(c.sar[2], c.sar[1])
TooWide(c) == /\ Wider(c)
              /\ Leq(Mul(Big(2 * MaxDim + 1), c.sar[2]), Mul(Big(2 * c.w), c.sar[1]))
TooTall(c) == /\ ~Wider(c)
              /\ Leq(Mul(Big(2 * MaxDim + 1), c.sar[1]), Mul(Big(2 * c.h), c.sar[2]))

\* the level's limits are exceeded; the display rate w * h * den / num counts
\* rounded up
TooSmall(c) ==
    /\ c.level \in Levels
    /\ \/ Lt(Big(MaxPic(c.level)), Pixels(c))
       \/ c.w > MaxH(c.level)
       \/ c.h > MaxV(c.level)
       \/ c.tb[1] # <<>> /\ Lt(Mul(MaxRate(c.level), c.tb[1]), Mul(Pixels(c), c.tb[2]))

\* the reasons for refusing c
Broken(c) ==
    { r \in { "InvalidWidth", "InvalidHeight", "InvalidAspectRatioNum", "InvalidAspectRatioDen",
              "InvalidRenderWidth", "InvalidRenderHeight", "InvalidRdoLookaheadFrames",
              "InvalidMaxKeyFrameInterval", "InvalidTileCols", "InvalidTileRows",
              "InvalidFrameRateNum", "InvalidFrameRateDen", "InvalidReservoirFrameDelay",
              "InvalidSwitchFrameInterval", "InvalidOptionWithStillPicture",
              "ColorConfigurationMismatch", "LevelUndefined", "LevelConstraintsExceeded",
              "TargetBitrateNeeded", "InvalidBitDepth" } :
        CASE r = "InvalidWidth"  -> c.w < MinDim(c) \/ c.w > MaxDim
          [] r = "InvalidHeight" -> c.h < MinDim(c) \/ c.h > MaxDim
          [] r = "InvalidAspectRatioNum" -> c.sar[1] = <<>>
          [] r = "InvalidAspectRatioDen" -> c.sar[2] = <<>>
          [] r = "InvalidRenderWidth" ->
                c.sar[1] # <<>> /\ c.sar[2] # <<>> /\ (TooWide(c) \/ (~Wider(c) /\ (c.w = 0 \/ c.w > MaxDim)) \/ c.w = 0)
          [] r = "InvalidRenderHeight" ->
                c.sar[1] # <<>> /\ c.sar[2] # <<>> /\ (TooTall(c) \/ (Wider(c) /\ (c.h = 0 \/ c.h > MaxDim)) \/ c.h = 0)
          [] r = "InvalidRdoLookaheadFrames" -> c.la = <<>> \/ Lt(MaxLa, c.la)
          [] r = "InvalidMaxKeyFrameInterval" -> Lt(MaxKf, c.maxkf)
          [] r = "InvalidTileCols" -> ~IsPow2(c.tcols)
          [] r = "InvalidTileRows" -> ~IsPow2(c.trows)
          [] r = "InvalidFrameRateNum" -> c.tb[1] = <<>> \/ Lt(U32Max, c.tb[1])
          [] r = "InvalidFrameRateDen" -> c.tb[2] = <<>> \/ Lt(U32Max, c.tb[2])
          [] r = "InvalidReservoirFrameDelay" -> c.rfd # -1 /\ c.rfd \notin 12..131072
          [] r = "InvalidSwitchFrameInterval" -> c.switch > 0 /\ c.ll = 0
          [] r = "InvalidOptionWithStillPicture" -> c.timing = 1 /\ c.still = 1
          [] r = "ColorConfigurationMismatch" ->
                \* the identity matrix is for full chroma resolution, sRGB for the full range
                c.color \in {1, 3} /\ (c.cs # 444 \/ (c.color = 1 /\ c.full = 0))
          [] r = "LevelUndefined" -> c.level # -1 /\ c.level \notin Levels \cup {Unlimited}
          [] r = "LevelConstraintsExceeded" ->
                TooSmall(c)
          [] r = "TargetBitrateNeeded" -> c.pass # 0 /\ c.br <= 0
          [] r = "InvalidBitDepth" -> c.bd \notin {8, 10, 12} }

(***************************************************************************)
(* Events: V  validating (v), creating an encoder (n, and once more n2) and *)
(*            asking for the tile layout (t): "ok" or the reason given      *)
(*         U  using an encoder of an accepted configuration: how it ended,  *)
(*            accepted and delivered frames, frames offered, packets a      *)
(*            decoder makes no picture of                                   *)
(***************************************************************************)
Answer(c, o) == IF o = "ok" THEN Broken(c) = {} ELSE o \in Broken(c)

Rules09(e) ==
    IF e.o = "V" THEN <<
        <<"wrong-validation", Answer(e.c, e.v)>>,
        <<"wrong-creation", Answer(e.c, e.n)>>,
        <<"wrong-layout-answer", Answer(e.c, e.t)>>,
        <<"answer-changed", e.n2 = e.n>> >>
    ELSE <<
        <<"unusable", e.r = "LimitReached">>,
        <<"frames-missing", e.acc = e.offered /\ e.del = e.acc>>,
        <<"undecodable", e.lost = 0>> >>
===============================================================================
