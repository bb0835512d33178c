------------------------------- MODULE COptions -------------------------------
(* The documented effect of rav1e_config_parse / _parse_int and of the
   configuration setters. Texts are sequences of one-character strings.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ord(d) == CHOOSE n \in 0..9 : <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[n + 1] = d
AllDigits(t) == Len(t) > 0 /\ \A i \in 1..Len(t) : t[i] \in Digits
RECURSIVE Strip(_)
Strip(t) == IF Len(t) > 1 /\ t[1] = "0" THEN Strip(Tail(t)) ELSE t
(* order of two stripped numerals                                          *)
RECURSIVE Le(_, _)
Le(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
            ELSE IF a = <<>> THEN TRUE
            ELSE IF a[1] # b[1] THEN Ord(a[1]) < Ord(b[1]) ELSE Le(Tail(a), Tail(b))
Neg(t) == Len(t) > 1 /\ t[1] = "-"
Plus(t) == Len(t) > 1 /\ t[1] = "+"
Body(t) == IF Neg(t) \/ Plus(t) THEN Tail(t) ELSE t
Numeral(t) == AllDigits(Body(t))
Value(t) == LET b == Strip(Body(t)) IN IF Neg(t) /\ b # <<"0">> THEN <<"-">> \o b ELSE b
Canonical(t) == Numeral(t) /\ Value(t) = t
U64 == <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>
I32 == <<"2","1","4","7","4","8","3","6","4","7">>
I32N == <<"2","1","4","7","4","8","3","6","4","8">>
U8 == <<"2","5","5">>
Ten == <<"1","0">>
T(name, field, ty, docmax) == [key |-> name, field |-> field, ty |-> ty, doc |-> docmax]
Numbers == {T("width", "enc.width", "u64", U64), T("height", "enc.height", "u64", U64), T("speed", "enc.speed_settings", "u8", Ten),
            T("threads", "threads", "u64", U64), T("tiles", "enc.tiles", "u64", U64), T("tile_rows", "enc.tile_rows", "u64", U64),
            T("tile_cols", "enc.tile_cols", "u64", U64), T("quantizer", "enc.quantizer", "u64", U8), T("min_quantizer", "enc.min_quantizer", "u8", U8),
            T("bitrate", "enc.bitrate", "i32", I32), T("key_frame_interval", "enc.max_key_frame_interval", "u64", U64),
            T("min_key_frame_interval", "enc.min_key_frame_interval", "u64", U64), T("switch_frame_interval", "enc.switch_frame_interval", "u64", U64),
            T("reservoir_frame_delay", "enc.reservoir_frame_delay", "i32", I32), T("rdo_lookahead_frames", "enc.speed_settings.rdo_lookahead_frames", "u64", U64)}
Bools == {<<"low_latency", "enc.low_latency">>, <<"enable_timing_info", "enc.enable_timing_info">>, <<"still_picture", "enc.still_picture">>}
NumKey(k) == \E x \in Numbers : x.key = k
Num(k) == CHOOSE x \in Numbers : x.key = k
BoolKey(k) == \E b \in Bools : b[1] = k
BoolField(k) == (CHOOSE b \in Bools : b[1] = k)[2]
Keys == {x.key : x \in Numbers} \cup {b[1] : b \in Bools} \cup {"tune", "level", "no_scene_detection"}
Fits(t, ty) == IF Neg(t) THEN ty = "i32" /\ Le(Strip(Body(t)), I32N)
               ELSE Le(Strip(Body(t)), CASE ty = "u8" -> U8 [] ty = "i32" -> I32 [] OTHER -> U64)
True == <<"t","r","u","e">>
False == <<"f","a","l","s","e">>
(* What a call may do: must |-> it has to be accepted, may |-> it may be;
   eff |-> if accepted, the fields and their texts afterwards.              *)
R(must, may, eff) == [must |-> must, may |-> may, eff |-> eff]
Refuse == R(FALSE, FALSE, <<>>)
Some(t) == <<"S","o","m","e","(">> \o t \o <<")">>
Never == <<"7","1","5","8","2","7","8","8","2">>
NumEffect(x, t, presets) ==
  LET v == Value(t) IN
  CASE x.key = "speed" -> LET n == IF Le(v, Ten) THEN (IF Len(v) = 2 THEN 10 ELSE Ord(v[1])) ELSE 10 IN [preset |-> n]
    [] x.key = "key_frame_interval" /\ v = <<"0">> -> (x.field :> Never)
    [] x.key = "reservoir_frame_delay" -> (x.field :> Some(v))
    [] OTHER -> (x.field :> v)
LevelDigits(t) == Len(t) = 3 /\ t[1] \in Digits /\ t[2] = "." /\ t[3] \in Digits
Dec(n) == LET D == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">> IN IF n < 10 THEN <<D[n + 1]>> ELSE <<D[(n \div 10) + 1], D[(n % 10) + 1]>>
Text(k, t) ==
  IF k \notin Keys THEN Refuse
  ELSE IF NumKey(k)
  THEN LET x == Num(k) IN
       IF ~Numeral(t) \/ ~Fits(t, x.ty) THEN Refuse
       ELSE R(Canonical(t) /\ ~Neg(t) /\ Le(Value(t), x.doc), TRUE, NumEffect(x, t, 0))
  ELSE IF BoolKey(k) THEN IF t \in {True, False} THEN R(TRUE, TRUE, BoolField(k) :> t) ELSE Refuse
  ELSE IF k = "no_scene_detection"
  THEN IF t = True THEN R(TRUE, TRUE, "enc.speed_settings.scene_detection_mode" :> <<"N","o","n","e">>)
       ELSE IF t = False THEN R(TRUE, TRUE, [none |-> 0]) ELSE Refuse
  ELSE IF k = "tune"
  THEN IF t = <<"p","s","n","r">> THEN R(TRUE, TRUE, "enc.tune" :> <<"P","s","n","r">>)
       ELSE IF t = <<"p","s","y","c","h","o","v","i","s","u","a","l">> THEN R(TRUE, TRUE, "enc.tune" :> <<"P","s","y","c","h","o","v","i","s","u","a","l">>)
       ELSE IF t = <<"P","s","n","r">> THEN R(FALSE, TRUE, "enc.tune" :> t) ELSE Refuse
  ELSE \* level
       IF t = <<"a","u","t","o">> THEN R(TRUE, TRUE, "enc.level_idx" :> <<"N","o","n","e">>)
       ELSE IF t = <<"u","n","c","o","n","s","t","r","a","i","n","e","d">> THEN R(TRUE, TRUE, "enc.level_idx" :> Some(<<"3","1">>))
       ELSE IF LevelDigits(t)
       THEN IF Ord(t[1]) \in 2..7 /\ Ord(t[3]) <= 3 THEN R(TRUE, TRUE, "enc.level_idx" :> Some(Dec((Ord(t[1]) - 2) * 4 + Ord(t[3])))) ELSE Refuse
       ELSE Refuse
(* Integers: as their text, or for the flags as whether they are not zero.  *)
IntCall(k, t) == LET a == Text(k, t) IN IF a.may THEN a ELSE Text(k, IF t = <<"0">> THEN False ELSE True)
(* e: [r, diff: set of changed fields, vals: function, presets, sp: the speed
   settings' text after, sub: the fields that make up the speed settings]    *)
Judge(a, e) ==
  IF e.r # 0
  THEN IF a.must THEN "documented-option-refused"
       ELSE IF e.r > 0 THEN "refused-with-a-positive-result"
       ELSE IF e.diff # {} THEN "refused-option-changed-the-configuration" ELSE ""
  ELSE IF ~a.may THEN "meaningless-option-accepted"
  ELSE IF "preset" \in DOMAIN a.eff
  THEN IF e.sp # e.presets[a.eff.preset + 1] THEN "option-has-another-effect"
       ELSE IF \E f \in e.diff : f \notin e.sub THEN "option-changed-something-else" ELSE ""
  ELSE IF "none" \in DOMAIN a.eff THEN IF e.diff # {} THEN "option-changed-something-else" ELSE ""
  ELSE IF \E f \in DOMAIN a.eff : f \notin DOMAIN e.vals THEN "option-has-another-effect"
  ELSE IF \E f \in DOMAIN a.eff : e.vals[f] # a.eff[f] THEN "option-has-another-effect"
  ELSE IF \E f \in e.diff : f \notin DOMAIN a.eff THEN "option-changed-something-else" ELSE ""
(* The setters: accepted, they write exactly the fields given.              *)
Setter(e) ==
  LET want == e.want IN
  IF e.r = 0 THEN IF e.refuse THEN "meaningless-option-accepted"
                  ELSE IF \E f \in DOMAIN want : f \notin DOMAIN e.text THEN "option-has-another-effect"
                  ELSE IF \E f \in DOMAIN want : e.text[f] # want[f] THEN "option-has-another-effect"
                  ELSE IF \E f \in e.diff : f \notin DOMAIN want /\ f \notin e.parents THEN "option-changed-something-else" ELSE ""
  ELSE IF ~e.refuse THEN "documented-option-refused"
  ELSE IF e.r > 0 THEN "refused-with-a-positive-result"
  ELSE IF \E f \in e.diff : (IF f \in DOMAIN want /\ f \in DOMAIN e.text THEN e.text[f] # want[f] ELSE f \notin e.parents) THEN "refused-option-changed-the-configuration" ELSE ""
===============================================================================
