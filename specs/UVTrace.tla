------------------------------ MODULE UVTrace ------------------------------
(* Judges traces recorded from the code.  TRACES names a file with a JSON
   array of traces, each an array of events; e.o is the observed result.   *)
EXTENDS UV, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, S
vars == <<tr, l, S>>

Done == tr > Len(T)

Init == tr = 1 /\ l = 1 /\ S = Init0

Obs(e) == IF "o" \in DOMAIN e THEN e.o ELSE [k |-> "none"]

Reject(e, r, c) ==
  PrintT("@@REJECT " \o ToJson([tr |-> tr, l |-> l, op |-> e.op, clause |-> c,
                                 expected |-> r, observed |-> Obs(e)]))

Step ==
  /\ ~Done
  /\ IF l > Len(T[tr])
     THEN tr' = tr + 1 /\ l' = 1 /\ S' = Init0
     ELSE LET e == T[tr][l]
              r == Do(S, e)
              c == Clause(r.res, Obs(e))
          IN IF c = "" THEN tr' = tr /\ l' = l + 1 /\ S' = r.s
             ELSE Reject(e, r.res, c) /\ tr' = tr + 1 /\ l' = 1 /\ S' = Init0

Finish == /\ Done /\ l = 1
          /\ PrintT("@@VALIDATED " \o ToJson([n |-> Len(T)]))
          /\ l' = 2 /\ UNCHANGED <<tr, S>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
View == <<tr, l>>
=============================================================================
