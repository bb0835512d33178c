----------------------------- MODULE SeqHeaderMC ------------------------------
(* Nothing announced is lost: for every configuration of the domain the      *)
(* header written with the documented profile reads back as announced.       *)
EXTENDS SeqHeader
CONSTANTS Sizes, Levels
Colors == {<<>>, <<1, 13, 0>>, <<1, 13, 1>>, <<9, 16, 9>>, <<2, 2, 2>>, <<22, 18, 14>>}
AllSizes == {<<16, 16>>, <<17, 4096>>, <<64, 65>>, <<65, 64>>, <<65535, 33>>, <<32, 65535>>}
FewSizes == {<<17, 64>>, <<65535, 33>>}
VARIABLES c, full
Base == [w : {16}, h : {16}, sar : {<<1, 1>>}, bd : {8, 10, 12}, cs : {400, 420, 422, 444}, csp : {0}, full : BOOLEAN,
         color : Colors, level : {31}, still : {FALSE}, timing : {FALSE}, tb : {<<0, 1, 0, 30>>}, grain : {FALSE},
         cll : {<<>>}, mdcv : {<<>>}]
Valid(x) == /\ (x.timing => ~x.still)
            /\ (~x.timing => x.tb[1] = 0)
            /\ (x.cs # 420 => x.csp = 0)
            /\ (CSrgb(x) /\ x.cs # 400 => x.full /\ x.cs = 444)
RECURSIVE Log(_)
Log(n) == IF n <= 1 THEN 0 ELSE 1 + Log(n \div 2)
Fields(x) ==
  [f \in {Order[i] : i \in 1..Len(Order)} |->
     CASE f = "profile" -> Profile(x) [] f \in {"still", "reduced"} -> B(x.still)
       [] f = "timing" -> B(x.timing) [] f = "tick_hi" -> x.tb[1] [] f = "tick_lo" -> x.tb[2] [] f = "scale_hi" -> x.tb[3] [] f = "scale_lo" -> x.tb[4]
       [] f \in {"equal", "one_tick"} -> 1 [] f = "level" -> x.level
       [] f = "wbits" -> Log(x.w - 1) [] f = "hbits" -> Log(x.h - 1) [] f = "w" -> x.w - 1 [] f = "h" -> x.h - 1
       [] f \in {"order_hint", "choose_sct", "choose_imv"} -> 1 [] f = "hint_bits" -> 5
       [] f = "high" -> B(x.bd > 8) [] f = "twelve" -> B(x.bd = 12) [] f = "mono" -> B(x.cs = 400)
       [] f = "has_color" -> B(x.color # <<>>) [] f = "cp" -> x.color[1] [] f = "tc" -> x.color[2] [] f = "mc" -> x.color[3]
       [] f = "range" -> B(x.full) [] f = "ssx" -> B(x.cs # 444) [] f = "ssy" -> B(x.cs = 420) [] f = "csp" -> x.csp
       [] f = "separate_uv" -> 1 [] f = "grain" -> B(x.grain)
       [] OTHER -> 0]
Init == full = 0 /\ c \in {x \in Base : Valid(x)}
Next == /\ full = 0 /\ full' = 1
        /\ \E s \in Sizes, p \in {0, 1, 2}, l \in Levels, st \in BOOLEAN, ti \in BOOLEAN, tb \in {<<0, 1, 0, 30>>, <<65535, 65535, 1, 0>>}, gr \in BOOLEAN :
              LET x == [c EXCEPT !.w = s[1], !.h = s[2], !.csp = p, !.level = l, !.still = st, !.timing = ti, !.tb = tb, !.grain = gr]
              IN Valid(x) /\ c' = x
Spec == Init /\ [][Next]_<<c, full>>
RoundTrip == LET b == Write(Fields(c)) IN Parses(b) /\ Plain(Read(b).r) /\ Heard(Read(b).r) = Announced(c)
ContainerIsFour == LET k == Container(Announced(c)) IN Len(k) = 4 /\ \A i \in 1..4 : k[i] \in 0..255
===============================================================================
