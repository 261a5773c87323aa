-------------------------------- MODULE AlmMC --------------------------------
(* The packing of coefficients, and two sets of coefficients under every      *)
(* short sequence of operations.                                             *)
EXTENDS Alm
CONSTANTS LMax, Depth
VARIABLES S, d
Sizes == { x \in (0..LMax) \X (0..LMax) : x[2] <= x[1] }
Init == S = << >> /\ d = 0
Ops ==
  { [op |-> "new", id |-> i, lmax |-> x[1], mmax |-> x[2]] : i \in 1..2, x \in {y \in (0..LMax) \X (0..LMax) : TRUE} } \cup
  { [op |-> "set", id |-> i, l |-> x[1], m |-> x[2], v |-> <<1, x[2]>>] : i \in 1..2, x \in LMs(LMax, LMax) } \cup
  { [op |-> "setdata", id |-> i, vals |-> [j \in 1..k |-> <<j, 0>>]] : i \in 1..2, k \in 1..4 } \cup
  { [op |-> "zero", id |-> i] : i \in 1..2 } \cup
  { [op |-> "trip", id |-> i, to |-> 3 - i, lmax |-> x[1], mmax |-> x[2]] : i \in 1..2, x \in Sizes }
Enabled(e) == IF e.op = "new" THEN e.id <= Len(S) + 1
              ELSE /\ e.id <= Len(S)
                   /\ (e.op = "set" => <<e.l, e.m>> \in DOMAIN S[e.id].c)
                   /\ (e.op = "trip" => e.to <= Len(S) + 1)
Next == d < Depth /\ d' = d + 1 /\ \E e \in Ops : Enabled(e) /\ S' = Do(S, e)
Spec == Init /\ [][Next]_<<S, d>>
Packed == \A x \in Sizes : /\ Cardinality(LMs(x[1], x[2])) = Size(x[1], x[2])
                           /\ { Index(x[1], y[1], y[2]) : y \in LMs(x[1], x[2]) } = 0..Size(x[1], x[2])-1
Listed == \A i \in DOMAIN S : Unlist(S[i].lmax, S[i].mmax, List(S[i])) = S[i].c
Known == \A i \in DOMAIN S : DOMAIN S[i].c = LMs(S[i].lmax, S[i].mmax)
\* going through a map twice is going through it once, to the smaller set
Twice == \A i \in DOMAIN S : \A x \in Sizes : \A y \in Sizes :
           LET a == Kept(Kept(S[i], x[1], x[2]), y[1], y[2])
               b == Kept(S[i], y[1], y[2])
           IN \A q \in DOMAIN a.c : a.c[q] = IF q \in LMs(x[1], x[2]) THEN b.c[q] ELSE C0
=============================================================================
