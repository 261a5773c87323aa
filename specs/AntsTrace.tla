----------------------------- MODULE AntsTrace ------------------------------
EXTENDS Ants, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, F
Init == tr = 1 /\ l = 1 /\ F = Empty
Done == tr > Len(T)
Reject(e, d, c) == PrintT("@@REJECT " \o ToJson([tr |-> tr, l |-> l, op |-> e.op, clause |-> c, expected |-> d, event |-> e]))
Step ==
  /\ ~Done
  /\ IF l > Len(T[tr]) THEN tr' = tr + 1 /\ l' = 1 /\ F' = Empty
     ELSE LET e == T[tr][l] IN
          IF e.op = "file" THEN tr' = tr /\ l' = l + 1 /\ F' = Put(F, e.f, e.recs)
          ELSE LET d == Due(F, e)  c == Grade(d, e)
               IN IF c = "" THEN tr' = tr /\ l' = l + 1 /\ F' = F
                  ELSE Reject(e, d, c) /\ tr' = tr /\ l' = l + 1 /\ F' = F
Finish == /\ Done /\ l = 1 /\ PrintT("@@VALIDATED " \o ToJson([n |-> Len(T)]))
          /\ l' = 2 /\ UNCHANGED <<tr, F>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<tr, l, F>>
View == <<tr, l>>
=============================================================================
