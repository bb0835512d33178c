-------------------------------- MODULE Replicas ------------------------------
(***************************************************************************)
(* A group of executions of one configuration on the same frames, under    *)
(* different numbers of workers, shared pools, instruction sets, call      *)
(* schedules and neighbours in the same process.  The first execution      *)
(* defines the stream; every other one must be the same stream.            *)
(*                                                                         *)
(* Events: [o |-> "Ref" | "Run", how, end, pk] where pk is the sequence of *)
(* packets <<number, type, bytes, reconstruction>> and end how the run     *)
(* ended ("end of stream" or a failure).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

G0 == [has |-> FALSE, pk |-> <<>>, end |-> ""]

Min(a, b) == IF a < b THEN a ELSE b
\* first packet that differs, 0 if none
FirstDiff(a, b) == LET D == {i \in 1..Min(Len(a), Len(b)) : a[i] # b[i]}
                   IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j

Bad(g, e) ==
    CASE e.end # "LimitReached" -> "run-fails"
      [] ~g.has -> ""
      [] Len(e.pk) # Len(g.pk) -> "number-of-packets"
      [] FirstDiff(e.pk, g.pk) # 0 -> "packet-bytes"
      [] OTHER -> ""
Learn(g, e) == IF g.has THEN g ELSE [has |-> TRUE, pk |-> e.pk, end |-> e.end]
===============================================================================
