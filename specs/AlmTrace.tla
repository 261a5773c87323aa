---------------------------- MODULE AlmTrace ----------------------------
EXTENDS Alm, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, S
Init == tr = 1 /\ l = 1 /\ S = W0
Done == tr > Len(T)
Reject(e, c) == PrintT("@@REJECT " \o ToJson([tr |-> tr, l |-> l, op |-> e.op, clause |-> c, expected |-> IF e.op = "died" \/ Refused(S, e) THEN [ok |-> FALSE] ELSE Due(S, e), event |-> e]))
Step ==
  /\ ~Done
  /\ IF l > Len(T[tr]) THEN tr' = tr + 1 /\ l' = 1 /\ S' = W0
     ELSE LET e == T[tr][l]  c == Clause(S, e)
          IN IF c = "" THEN tr' = tr /\ l' = l + 1 /\ S' = Do(S, e)
             ELSE Reject(e, c) /\ tr' = tr + 1 /\ l' = 1 /\ S' = W0
Finish == /\ Done /\ l = 1 /\ PrintT("@@VALIDATED " \o ToJson([n |-> Len(T)]))
          /\ l' = 2 /\ UNCHANGED <<tr, S>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<tr, l, S>>
View == <<tr, l>>
=============================================================================
