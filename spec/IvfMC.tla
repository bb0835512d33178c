-------------------------------- MODULE IvfMC ---------------------------------
(* A writer appends packets, then a crash cuts the file at any byte: reading *)
(* gives back a prefix of what was written, whole packets only, then an      *)
(* error.                                                                    *)
EXTENDS Ivf
CONSTANTS MaxPackets, Payloads, Stamps
SomePayloads == {<<>>, <<7>>, <<0, 0>>, DKIF \o <<0, 1, 0>>, [i \in 1..13 |-> 255]}
SomeStamps == {<<0, 0, 0, 0>>, <<1, 0, 0, 32768>>, <<65535, 65535, 65535, 65535>>}
VARIABLES written, bytes, phase
vars == <<written, bytes, phase>>
H == [w |-> 300, h |-> 16, num |-> <<30000, 1>>, den |-> <<1001, 0>>]
Init == written = <<>> /\ bytes = EncHeader(H) /\ phase = "writing"
Append1 == /\ phase = "writing" /\ Len(written) < MaxPackets
           /\ \E d \in Payloads, t \in Stamps : LET p == [pts |-> t, data |-> d]
                IN written' = Append(written, p) /\ bytes' = bytes \o EncPacket(p)
           /\ phase' = phase
Crash == /\ phase = "writing" /\ phase' = "cut"
         /\ \E n \in 0..Len(bytes) : bytes' = SubSeq(bytes, 1, n)
         /\ written' = written
Damage == /\ phase = "writing" /\ phase' = "bad"
          /\ \E i \in 1..4, v \in {0, 255} : bytes' = Damaged(bytes, i, v)
          /\ written' = written
Next == Append1 \/ Crash \/ Damage
Spec == Init /\ [][Next]_vars
Got == ReadAll(bytes)
Whole == phase = "writing" => /\ bytes = Encode(H, written) /\ HeaderIs(H, Got[1]) /\ Len(Got) = Len(written) + 2
PrefixOnly == phase \in {"writing", "cut"} =>
                 /\ Len(Got) <= Len(written) + 2 /\ Got[Len(Got)].r = "eof"
                 /\ \A i \in 2..Len(Got) - 1 : Got[i].r = "pkt" /\ Got[i].data = written[i - 1].data /\ Got[i].pts = written[i - 1].pts
\* a packet is lost only when the cut falls before its end
NoneLost == phase = "cut" =>
                 \A n \in 0..Len(written) : Len(bytes) >= Len(Encode(H, SubSeq(written, 1, n))) => Len(Got) >= n + 2
Refused == phase = "bad" => Got = <<[r |-> "bad"]>>
===============================================================================
