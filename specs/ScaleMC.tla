------------------------------- MODULE ScaleMC ------------------------------
(* The storage scheme itself, with K steps in place of 32767: a component x *)
(* is stored as the integer part of x*K/M and read as stored*M/K.  It is    *)
(* within the bound that Scale.tla allows, and reading follows writing.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS K, Max
VARIABLES M, x
Init == M \in 0..Max /\ x \in -Max..Max
Next == UNCHANGED <<M, x>>
Spec == Init /\ [][Next]_<<M, x>>
A(v) == IF v < 0 THEN -v ELSE v
Trunc(n, d) == IF n < 0 THEN -((-n) \div d) ELSE n \div d
Stored == IF M = 0 THEN 0 ELSE Trunc(x * K, M)
(* |x - Stored*M/K| <= M/K, times K *)
OneStep == A(x) <= M => A(x * K - Stored * M) <= M
Fits == A(x) <= M => A(Stored) <= K
ZeroIsZero == (M = 0 \/ x = 0) => Stored = 0
Extremes == (A(x) = M /\ M > 0) => A(Stored) = K
=============================================================================
