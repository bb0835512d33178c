-------------------------------- MODULE CApiMC --------------------------------
(* Any client that keeps the ownership rules against an encoder that takes or
   refuses frames at will and returns packets in any order: every opaque ends
   up handed back or released, once.                                        *)
EXTENDS CApi
CONSTANTS NF, NC, NI, NSends
VARIABLES l, out, back, alive, sends
vars == <<l, out, back, alive, sends>>
(* out: how often each opaque's callback ran; back: how often handed over   *)
Bump(f, S) == [i \in DOMAIN f |-> f[i] + (IF i \in S THEN 1 ELSE 0)]
Init == /\ l = [L0 EXCEPT !.pend = [x \in 1..NC |-> <<>>], !.last = [x \in 1..NC |-> 0], !.fr = [k \in 1..NF |-> None]]
        /\ out = [i \in 1..NI |-> 0] /\ back = out /\ alive = 1..NC /\ sends = 0
Fresh == {i \in 1..NI : i \notin l.ever /\ \A j \in 1..NI : j < i => j \in l.ever}
SetO(k) == \E i \in Fresh \cup {0} : \E cb \in BOOLEAN :
             /\ l' = Opaque(l, k, i, cb, Called(l.fr[k])) /\ out' = Bump(out, Called(l.fr[k]))
             /\ UNCHANGED <<back, alive, sends>>
Free(k) == /\ l' = Unref(l, k, Called(l.fr[k])) /\ out' = Bump(out, Called(l.fr[k])) /\ UNCHANGED <<back, alive, sends>>
SendF(x, k) == /\ sends < NSends /\ sends' = sends + 1
               /\ \E c \in {0, 2} : LET r == IF c = 0 THEN {} ELSE Called(l.fr[k])
                                    IN l' = Send(l, x, k, c, r) /\ out' = Bump(out, r)
               /\ UNCHANGED <<back, alive>>
Packets(x) == {n \in 1..Len(l.pend[x]) : TRUE}
Recv(x) == \E n \in Packets(x) : /\ l.pend[x][n] # None
                                 /\ l' = Receive(l, x, 0, n - 1, l.pend[x][n].id, {})
                                 /\ back' = Bump(back, {l.pend[x][n].id}) /\ UNCHANGED <<out, alive, sends>>
Drop(x) == LET r == UNION {Called(o) : o \in Range(l.pend[x])}
           IN l' = DropCtx(l, x, r) /\ out' = Bump(out, r) /\ alive' = alive \ {x} /\ UNCHANGED <<back, sends>>
Done == alive = {} /\ DOMAIN l.fr = {}
Next == \/ \E k \in DOMAIN l.fr : SetO(k) \/ Free(k) \/ \E x \in alive : SendF(x, k)
        \/ \E x \in alive : Recv(x) \/ Drop(x)
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Once == \A i \in 1..NI : out[i] + back[i] <= 1
OnePlace == \A i \in l.ever : Cardinality({k \in DOMAIN l.fr : l.fr[k].id = i})
              + Cardinality(UNION {{<<x, n>> : n \in {m \in 1..Len(l.pend[x]) : l.pend[x][m].id = i}} : x \in 1..NC})
              + (IF i \in l.gone THEN 1 ELSE 0) = 1
NoErr == l.err = ""
AtEnd == Done => Over(l).err = "" /\ \A i \in l.ever : out[i] + back[i] = 1 \/ (out[i] = 0 /\ back[i] = 0)
Last == \A x \in 1..NC : l.last[x] \in {0, 2}
===============================================================================
