------------------------------- MODULE TilingMC -------------------------------
(* The documented layout obeys every rule, for every picture size in        *)
(* superblocks and every request.                                           *)
EXTENDS Tiling, TLC
CONSTANTS Cols, Rows, Tot
QC == (1..24) \cup {31, 32, 33, 47, 63, 64, 65, 66, 67, 68, 96, 97, 100, 127, 128, 129, 130, 193, 255, 256, 257, 258, 511, 512, 513, 514, 640, 641, 769, 1000, 1023, 1024}
QR == {1, 2, 3, 5, 7, 8, 13, 33, 36, 37, 63, 64, 65, 100, 129, 257, 511, 640, 1024}
QT == {1, 2, 3, 5, 8, 17, 64, 100, 4096}
FC == 1..1024
FR == {1, 2, 3, 5, 8, 13, 17, 33, 36, 37, 64, 65, 73, 129, 200, 257, 400, 513, 640, 1023, 1024}
VARIABLE q
Init == q \in [w : {64 * c : c \in Cols}, h : {0}, is422 : {0, 1}, tc : {0}, tr : {0}, tiles : {0}, rate : {0}]
Pick == q.h = 0 /\ \E r \in Rows :
           \/ \E tc \in 0..7, tr \in 0..7, rate \in {0, 3, 9} : q' = [q EXCEPT !.h = 64 * r, !.tc = tc, !.tr = tr, !.rate = rate]
           \/ \E n \in Tot, rate \in {0, 2} : q' = [q EXCEPT !.h = 64 * r, !.tiles = n, !.rate = rate]
Spec == Init /\ [][Pick]_q
Obeys == q.h > 0 => Bad(q, Layout(q)) = ""
===============================================================================
