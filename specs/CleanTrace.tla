---------------------------- MODULE CleanTrace ----------------------------
EXTENDS Clean, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
Init == tr = 1 /\ l = 1
Done == tr > Len(T)
Reject(e, c) == PrintT("@@REJECT " \o ToJson([tr |-> tr, l |-> l, op |-> e.op, clause |-> c, expected |-> IF e.op = "clean" /\ c = "outcome" THEN Outcomes(e.job, Fn(e.im)) ELSE {}, event |-> e]))
Step ==
  /\ ~Done
  /\ IF l > Len(T[tr]) THEN tr' = tr + 1 /\ l' = 1
     ELSE LET e == T[tr][l]  c == Clause(e)
          IN /\ IF c = "" THEN TRUE ELSE Reject(e, c)
             /\ tr' = tr /\ l' = l + 1
Finish == /\ Done /\ l = 1 /\ PrintT("@@VALIDATED " \o ToJson([n |-> Len(T)]))
          /\ l' = 2 /\ tr' = tr
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<tr, l>>
View == <<tr, l>>
=============================================================================
