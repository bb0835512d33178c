--------------------------------- MODULE CliMC ---------------------------------
(***************************************************************************)
(* The encoder process over its files, explored: inputs of up to MaxN      *)
(* frames (possibly followed by garbage), skipped frames, limits, an       *)
(* existing output with or without consent, statistics written or read     *)
(* (good or damaged), a reconstruction, an encoder that delays packets as  *)
(* it likes or refuses the configuration, a full disk, and a termination   *)
(* request at any point.                                                   *)
(***************************************************************************)
EXTENDS Cli, TLC
CONSTANTS MaxN, Faults

None == <<"none">>
Old  == <<"old">>

VARIABLES n, junk, skip, lim, old, consent, first, second, rec, refuse,   \* the invocation
          ph, out, st, pic, read, ahead, got, sig, ended, full, exit
inv == <<n, junk, skip, lim, old, consent, first, second, rec, refuse>>
run == <<ph, out, st, pic, read, ahead, got, sig, ended, full, exit>>
vars == <<inv, run>>

Init ==
    /\ n = -1 /\ junk = 0 /\ skip = 0 /\ lim = 0 /\ old = FALSE /\ consent = FALSE /\ first = FALSE
    /\ second = "" /\ rec = FALSE /\ refuse = FALSE
    /\ ph = "options" /\ out = None /\ st = [head |-> FALSE, recs |-> 0, sum |-> FALSE] /\ pic = 0 /\ read = 0
    /\ ahead = 0 /\ got = 0 /\ sig = FALSE /\ ended = FALSE /\ full = FALSE /\ exit = ""

V == [n |-> n, junk |-> junk]
O == [ skip |-> Big(skip), limit |-> Big(lim) ]
Want == Selected(O, V)

\* any invocation at all
Invoke ==
    /\ ph = "options"
    /\ n' \in 0..MaxN /\ junk' \in {0, 1} /\ skip' \in 0..MaxN + 1 /\ lim' \in 0..MaxN + 1
    /\ old' \in BOOLEAN /\ consent' \in BOOLEAN /\ first' \in BOOLEAN /\ second' \in {"", "good", "bad"}
    /\ rec' \in BOOLEAN /\ refuse' \in BOOLEAN
    /\ (~old' => ~consent') /\ (first' => second' = "") /\ (refuse' => skip' = 0 /\ lim' = 0 /\ junk' = 0)
    /\ out' = IF old' THEN Old ELSE None
    /\ ph' = "ask"
    /\ UNCHANGED <<st, pic, read, ahead, got, sig, ended, full, exit>>

Fail == ph' = "exit" /\ exit' = "err" /\ UNCHANGED <<inv, out, st, pic, read, ahead, got, sig, ended, full>>

Ask == /\ ph = "ask"
       /\ IF old /\ ~consent THEN Fail
          ELSE /\ out' = <<>> /\ ph' = "setup" /\ UNCHANGED <<inv, st, pic, read, ahead, got, sig, ended, full, exit>>
Setup == /\ ph = "setup"
         /\ IF refuse \/ second = "bad" THEN Fail
            ELSE /\ ph' = "header" /\ UNCHANGED <<inv, out, st, pic, read, ahead, got, sig, ended, full, exit>>
Header == /\ ph = "header"
          /\ out' = <<"head">> /\ ph' = "skip" /\ UNCHANGED <<inv, st, pic, read, ahead, got, sig, ended, full, exit>>
Skip == /\ ph = "skip"
        /\ IF skip > n THEN Fail
           ELSE /\ read' = skip /\ st' = [st EXCEPT !.head = first] /\ ph' = "code"
                /\ UNCHANGED <<inv, out, pic, ahead, got, sig, ended, full, exit>>

AtLimit == lim # 0 /\ read - skip = lim
Read == /\ ph = "code" /\ ~ended
        /\ IF AtLimit \/ sig
           THEN /\ ended' = TRUE /\ UNCHANGED <<inv, ph, out, st, pic, read, ahead, got, sig, full, exit>>
           ELSE IF read < n
           THEN /\ read' = read + 1 /\ ahead' = ahead + 1
                /\ UNCHANGED <<inv, ph, out, st, pic, got, sig, ended, full, exit>>
           ELSE IF junk = 1 THEN Fail
           ELSE /\ ended' = TRUE /\ UNCHANGED <<inv, ph, out, st, pic, read, ahead, got, sig, full, exit>>
\* a packet, once the encoder likes to give one
Packet == /\ ph = "code" /\ ahead > 0 /\ ~full
          /\ out' = Append(out, got)
          /\ pic' = IF rec THEN pic + 1 ELSE pic
          /\ st' = IF first THEN [st EXCEPT !.recs = @ + 1] ELSE st
          /\ got' = got + 1 /\ ahead' = ahead - 1
          /\ UNCHANGED <<inv, ph, read, sig, ended, full, exit>>
DiskFull == /\ Faults /\ ph = "code" /\ ahead > 0 /\ full' = TRUE
            /\ UNCHANGED <<inv, ph, out, st, pic, read, ahead, got, sig, ended, exit>>
Lost == ph = "code" /\ ahead > 0 /\ full /\ Fail
Finish == /\ ph = "code" /\ ended /\ ahead = 0
          /\ IF full THEN Fail
             ELSE /\ st' = IF first THEN [st EXCEPT !.sum = TRUE] ELSE st
                  /\ ph' = "exit" /\ exit' = "ok"
                  /\ UNCHANGED <<inv, out, pic, read, ahead, got, sig, ended, full>>
Signal == /\ Faults /\ ph = "code" /\ ~sig /\ sig' = TRUE
          /\ UNCHANGED <<inv, ph, out, st, pic, read, ahead, got, ended, full, exit>>

Next == Invoke \/ Ask \/ Setup \/ Header \/ Skip \/ Read \/ Packet \/ DiskFull \/ Lost \/ Finish \/ Signal
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Packets == IF out \in {None, Old, <<>>} THEN 0 ELSE Len(out) - 1
Consecutive == out \notin {None, Old, <<>>} => \A i \in 2..Len(out) : out[i] = i - 2
KeepOld == (old /\ ~consent) => out = Old
NoConsentNoSuccess == (old /\ ~consent) => exit # "ok"
Complete == (exit = "ok" /\ ~sig) => Packets = Want /\ out[1] = "head"
PrefixWhenStopped == (exit = "ok" /\ sig) => Packets = read - skip /\ Packets <= Want
NeverMore == n >= 0 /\ skip <= n => Packets <= Want
Refused == (exit = "ok") => ~refuse /\ second # "bad" /\ skip <= n
DamageNoticed == (exit = "ok" /\ ~sig) => ~JunkHit(O, V)
Reconstruction == (exit # "" /\ rec) => pic = Packets
Statistics == /\ st.sum => exit = "ok" /\ st.recs = Packets
              /\ (exit = "ok" /\ first) => st.sum
              /\ (exit = "err") => ~st.sum      \* a second pass refuses what a failed first pass left
DiskFullNoticed == (exit = "ok") => ~full
Exits == <>(exit # "")
===============================================================================
