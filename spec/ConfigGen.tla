------------------------------- MODULE ConfigGen -------------------------------
(***************************************************************************)
(* Configurations at and around every limit: starting from plain bases, up *)
(* to MaxDev settings deviate to boundary values.  TLC enumerates them     *)
(* all (or simulates deeper ones), checks that the refusal rules are sane  *)
(* on each, and prints them for the real encoder.                          *)
(***************************************************************************)
EXTENDS ConfigRules, Json, TLC, IOUtils, FiniteSets

MaxDev == atoi(IOEnv.MAXDEV)
Emit   == IOEnv.EMIT = "1"

U64Max == Sub(Pow2(64), Big(1))
Plus1(b) == Add(b, Big(1))
One == Big(1)

Base == [ w |-> 64, h |-> 64, still |-> 0, ll |-> 0, timing |-> 0, full |-> 0,
          sar |-> <<One, One>>, tb |-> <<One, Big(30)>>, la |-> Big(10), maxkf |-> Big(240),
          tcols |-> <<>>, trows |-> <<>>, rfd |-> -1, switch |-> 0, color |-> 0, cs |-> 420,
          level |-> -1, br |-> 0, pass |-> 0, bd |-> 8 ]
Bases == { Base,
           [Base EXCEPT !.still = 1, !.bd = 10],
           [Base EXCEPT !.ll = 1, !.switch = 5, !.br = 1000, !.pass = 1],
           [Base EXCEPT !.w = 1920, !.h = 1080, !.level = 8, !.cs = 444, !.full = 1, !.color = 1] }

\* settings and the values they deviate to; "lv" puts several settings at a
\* limit of a level
Fields == {"w", "h", "still", "ll", "timing", "full", "sar", "tb", "la", "maxkf", "tcols", "trows",
           "rfd", "switch", "color", "cs", "level", "br", "pass", "bd", "lv"}

Tiles == {Big(1), Big(2), Big(3), Big(6), Big(64), Big(96), Pow2(20), Plus1(Pow2(40)), Pow2(62), Pow2(63), U64Max}

JustBelow(l) == Div(Mul(MaxRate(l), Big(4099)), Big(4096))
LevelEdges(c) ==
    UNION { LET p == MaxPic(l)
                side(a) == p \div a
            IN { [c EXCEPT !.level = l, !.w = MaxH(l), !.h = side(MaxH(l)), !.tb = <<One, One>>],
                 [c EXCEPT !.level = l, !.w = MaxH(l), !.h = side(MaxH(l)) + 1, !.tb = <<One, One>>],
                 [c EXCEPT !.level = l, !.w = MaxH(l) + 1, !.h = 64, !.tb = <<One, One>>],
                 [c EXCEPT !.level = l, !.w = 64, !.h = MaxV(l), !.tb = <<One, One>>],
                 [c EXCEPT !.level = l, !.w = 64, !.h = MaxV(l) + 1, !.tb = <<One, One>>],
                 [c EXCEPT !.level = l, !.w = 64, !.h = 64, !.tb = <<Big(4096), MaxRate(l)>>],
                 [c EXCEPT !.level = l, !.w = 64, !.h = 64, !.tb = <<Big(4096), Plus1(MaxRate(l))>>],
                 [c EXCEPT !.level = l, !.w = 64, !.h = 64, !.tb = <<Big(4097), Plus1(MaxRate(l))>>],
                 \* less than one sample a second below and above the limit
                 [c EXCEPT !.level = l, !.w = 64, !.h = 64, !.tb = <<Big(4099), JustBelow(l)>>],
                 [c EXCEPT !.level = l, !.w = 64, !.h = 64, !.tb = <<Big(4099), Plus1(JustBelow(l))>>] }
            : l \in Levels }

Alt(c, f) ==
    CASE f \in {"w", "h"} -> { [c EXCEPT ![f] = v] : v \in {0, 1, 15, 16, 17, 320, 2048, 65535, 65536, 1000000} }
      [] f \in {"still", "ll", "timing", "full"} -> { [c EXCEPT ![f] = 1 - @] }
      [] f = "sar" -> { [c EXCEPT !.sar = v] : v \in {
             <<Big(2), One>>, <<One, Big(2)>>, <<<<>>, One>>, <<One, <<>>>>, <<<<>>, <<>>>>,
             <<Big(131070), Big(128)>>, <<Big(131071), Big(128)>>, <<Big(64), Big(65535)>>, <<Big(64), Big(65536)>>,
             <<U64Max, One>>, <<One, U64Max>>, <<Pow2(63), Pow2(63)>>, <<One, Big(3)>>, <<Big(40), Big(33)>> } }
      [] f = "tb" -> { [c EXCEPT !.tb = v] : v \in {
             <<<<>>, One>>, <<One, <<>>>>, <<One, One>>, <<U32Max, One>>, <<One, U32Max>>, <<U32Max, U32Max>>,
             <<Plus1(U32Max), One>>, <<One, Plus1(U32Max)>>, <<Pow2(31), Plus1(Pow2(31))>>, <<Plus1(Pow2(31)), Pow2(31)>>,
             <<Pow2(31), One>>, <<One, Pow2(31)>>, <<U64Max, U64Max>>, <<Big(1001), Big(30000)>>, <<Pow2(31), Big(3)>> } }
      [] f = "la" -> { [c EXCEPT !.la = v] : v \in {<<>>, One, Big(40), Pow2(32), Pow2(63), MaxLa, U64Max} }
      [] f = "maxkf" -> { [c EXCEPT !.maxkf = v] : v \in {<<>>, One, MaxKf, Plus1(MaxKf), Pow2(31), Pow2(63), U64Max} }
      [] f \in {"tcols", "trows"} -> { [c EXCEPT ![f] = v] : v \in Tiles }
      [] f = "rfd" -> { [c EXCEPT !.rfd = v] : v \in {-5, 0, 1, 11, 12, 13, 131071, 131072, 131073, 2147483647} }
      [] f = "switch" -> { [c EXCEPT !.switch = v] : v \in {0, 1, 7, 2147483647} }
      [] f = "color" -> { [c EXCEPT !.color = v] : v \in 0..3 }
      [] f = "cs" -> { [c EXCEPT !.cs = v] : v \in {400, 420, 422, 444} }
      [] f = "level" -> { [c EXCEPT !.level = v] : v \in {-1, 20, 23, 24, 30, 31, 32, 33, 63, 255} \cup 0..19 }
      [] f = "br" -> { [c EXCEPT !.br = v] : v \in {0, 1, -1, 100000, 2147483647} }
      [] f = "pass" -> { [c EXCEPT !.pass = v] : v \in 0..3 }
      [] f = "bd" -> { [c EXCEPT !.bd = v] : v \in {0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16} }
      [] f = "lv" -> LevelEdges(c)

VARIABLES cf, dev
vars == <<cf, dev>>

Say(x) == IF Emit THEN PrintT("CFG " \o ToJson(x)) ELSE TRUE
CInit == cf \in Bases /\ dev = {} /\ Say(cf)
CNext == /\ Cardinality(dev) < MaxDev
         /\ \E f \in Fields \ dev :
              /\ (f \in {"level", "w", "h", "tb"} => "lv" \notin dev) /\ (f = "lv" => dev \cap {"level", "w", "h", "tb"} = {})
              /\ cf' \in Alt(cf, f) /\ cf' # cf
              /\ dev' = dev \cup {f}
              /\ Say(cf')
CSpec == CInit /\ [][CNext]_vars
View == cf

----------------------------------------------------------------------------
\* sanity of the rules
BasesFine == dev = {} => Broken(cf) = {}
\* each deviation can break only what it concerns
Concerns(f) ==
    CASE f = "w" -> {"InvalidWidth", "InvalidRenderWidth", "InvalidRenderHeight", "LevelConstraintsExceeded"}
      [] f = "h" -> {"InvalidHeight", "InvalidRenderHeight", "InvalidRenderWidth", "LevelConstraintsExceeded"}
      [] f = "still" -> {"InvalidWidth", "InvalidHeight", "InvalidOptionWithStillPicture"}
      [] f = "ll" -> {"InvalidSwitchFrameInterval"}
      [] f = "timing" -> {"InvalidOptionWithStillPicture"}
      [] f \in {"full", "color", "cs"} -> {"ColorConfigurationMismatch"}
      [] f = "sar" -> {"InvalidAspectRatioNum", "InvalidAspectRatioDen", "InvalidRenderWidth", "InvalidRenderHeight"}
      [] f = "tb" -> {"InvalidFrameRateNum", "InvalidFrameRateDen", "LevelConstraintsExceeded"}
      [] f = "la" -> {"InvalidRdoLookaheadFrames"}
      [] f = "maxkf" -> {"InvalidMaxKeyFrameInterval"}
      [] f = "tcols" -> {"InvalidTileCols"}
      [] f = "trows" -> {"InvalidTileRows"}
      [] f = "rfd" -> {"InvalidReservoirFrameDelay"}
      [] f = "switch" -> {"InvalidSwitchFrameInterval"}
      [] f = "level" -> {"LevelUndefined", "LevelConstraintsExceeded"}
      [] f \in {"br", "pass"} -> {"TargetBitrateNeeded"}
      [] f = "bd" -> {"InvalidBitDepth"}
      [] f = "lv" -> {"LevelConstraintsExceeded", "InvalidRenderWidth", "InvalidRenderHeight"}
Local == Broken(cf) \subseteq UNION { Concerns(f) : f \in dev }
\* a higher level never forbids what a lower one allows; no level, or the
\* unlimited one, forbids nothing
LevelMonotone ==
    \A l \in Levels : \A m \in Levels :
        (l < m /\ ~\E n \in Levels : l < n /\ n < m) => (TooSmall([cf EXCEPT !.level = m]) => TooSmall([cf EXCEPT !.level = l]))
LevelFree == {"LevelUndefined", "LevelConstraintsExceeded"} \cap (Broken([cf EXCEPT !.level = -1]) \cup Broken([cf EXCEPT !.level = Unlimited])) = {}
\* turning picture and aspect ratio by 90 degrees turns the refusals
Turn(r) == CASE r = "InvalidWidth" -> "InvalidHeight" [] r = "InvalidHeight" -> "InvalidWidth"
             [] r = "InvalidRenderWidth" -> "InvalidRenderHeight" [] r = "InvalidRenderHeight" -> "InvalidRenderWidth"
             [] r = "InvalidAspectRatioNum" -> "InvalidAspectRatioDen" [] r = "InvalidAspectRatioDen" -> "InvalidAspectRatioNum"
             [] OTHER -> r
Turned == cf.level = -1 => Broken([cf EXCEPT !.w = cf.h, !.h = cf.w, !.sar = <<cf.sar[2], cf.sar[1]>>]) = { Turn(r) : r \in Broken(cf) }
================================================================================
