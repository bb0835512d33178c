------------------------------- MODULE CliMeaning -------------------------------
(* For every invocation in the file named by CASES: the configuration its   *)
(* options stand for, the number of frames, and the reasons to refuse it.   *)
EXTENDS Cli, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE k
MInit == k = 1
MNext == /\ k <= Len(Cases)
         /\ k' = k + 1
         /\ LET c == Cases[k]
                m == Meaning(c.o, c.v)
            IN PrintT("MEAN " \o ToString(k) \o " " \o
                      ToJson([m |-> m, n |-> Selected(c.o, c.v), bad |-> Refusals(c.o, c.v), junk |-> JunkHit(c.o, c.v)]))
MSpec == MInit /\ [][MNext]_k
===============================================================================
