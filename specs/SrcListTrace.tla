---------------------------- MODULE SrcListTrace ----------------------------
EXTENDS SrcList, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
Init == tr = 1 /\ l = 1
Done == tr > Len(T)
Expected(e) ==
  IF e.op # "srclist" THEN [ok |-> e.op = "lst"]
  ELSE LET all == World(e) \cup Dirs1(e)
       IN [yes |-> {s.name : s \in {x \in all : Listed(World(e), e.o, x) = "yes"}},
           maybe |-> {s.name : s \in {x \in all : Listed(World(e), e.o, x) = "maybe"}}]
Reject(e, c) == PrintT("@@REJECT " \o ToJson([tr |-> tr, l |-> l, op |-> e.op, clause |-> c, expected |-> Expected(e), event |-> e]))
Step ==
  /\ ~Done
  /\ IF l > Len(T[tr]) THEN tr' = tr + 1 /\ l' = 1
     ELSE LET e == T[tr][l]  c == Clause(e)
          IN IF c = "" THEN tr' = tr /\ l' = l + 1
             ELSE Reject(e, c) /\ tr' = tr + 1 /\ l' = 1
Finish == /\ Done /\ l = 1 /\ PrintT("@@VALIDATED " \o ToJson([n |-> Len(T)]))
          /\ l' = 2 /\ UNCHANGED tr
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<tr, l>>
=============================================================================
