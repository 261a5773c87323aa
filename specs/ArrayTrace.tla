---------------------------- MODULE ArrayTrace ------------------------------
EXTENDS Array, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, S
Init == tr = 1 /\ l = 1 /\ S = [none |-> TRUE]
Done == tr > Len(T)
Reject(e, d, c) == PrintT("@@REJECT " \o ToJson([tr |-> tr, l |-> l, op |-> e.op, clause |-> c, expected |-> d, event |-> e]))
Step ==
  /\ ~Done
  /\ IF l > Len(T[tr]) THEN tr' = tr + 1 /\ l' = 1 /\ S' = [none |-> TRUE]
     ELSE LET e == T[tr][l]  d == Due(S, e)  c == Clause(S, e, d)
          IN IF c = "" THEN tr' = tr /\ l' = l + 1 /\ S' = Do(S, e)
             ELSE Reject(e, d, c) /\ tr' = tr + 1 /\ l' = 1 /\ S' = [none |-> TRUE]
Finish == /\ Done /\ l = 1 /\ PrintT("@@VALIDATED " \o ToJson([n |-> Len(T)]))
          /\ l' = 2 /\ UNCHANGED <<tr, S>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<tr, l, S>>
View == <<tr, l>>
=============================================================================
