------------------------------- MODULE CleanMC -------------------------------
(* CLEAN of every small image with every small kernel: the outcomes obey the *)
(* laws, for real images in one dimension (and two).                         *)
EXTENDS Clean
CONSTANTS D1, D2, Top, GDs, MaxIters, Us, Tols
Bits == 64
Signs == {1, -1}
VARIABLES j, im
Cells == D1 * D2
Jobs == { [d1 |-> D1, d2 |-> D2, ker |-> [k \in 1..Cells |-> IF k = 1 THEN <<2 * u, 0>> ELSE <<t[k], 0>>], u |-> <<u, 0>>, kd |-> 1, gd |-> g,
           area |-> [k \in 1..Cells |-> IF k = a THEN 0 ELSE 1], pos |-> p, maxiter |-> m, stop |-> s, tol |-> tol] :
           u \in Us, t \in [2..Cells -> -1..1], g \in GDs, a \in {0, 1, Cells}, p \in BOOLEAN, m \in MaxIters, s \in BOOLEAN, tol \in Tols }
Init == j \in Jobs /\ im \in [0..Cells-1 -> { <<x * Bits, 0>> : x \in -Top..Top }]
Next == UNCHANGED <<j, im>>
Spec == Init /\ [][Next]_<<j, im>>
Zero == [p \in 0..Cells-1 |-> C0]
Laws == \A o \in Outcomes(j, im) : o.term = "free" \/
          /\ Explained(j, im, o.mdl, o.res, 0)
          /\ Inside(j, o.mdl, Zero)
          /\ (j.pos /\ j.u[1] = 1 => Positive(j, o.mdl, Zero))
          /\ (o.term # "tol" \/ j.stop => NoWorse(j, im, o.res))
          /\ (o.term = "divergence" => j.stop /\ 0 < o.iter /\ o.iter < j.maxiter)
          /\ (o.term = "tol" => j.tol # "none" /\ o.iter > 0)
Some == Outcomes(j, im) # {}
\* a lone source on a perfect kernel is found at once
Point == \A p \in 0..Cells-1 : \A x \in 1..Top :
           (/\ im = [Zero EXCEPT ![p] = <<x * Bits, 0>>] /\ j.area[p + 1] = 1 /\ j.u[1] = 1 /\ j.gd = 1 /\ j.maxiter > 1
            /\ \A k \in 2..Cells : j.ker[k] = C0)
           => \E o \in Outcomes(j, im) : o.term # "free" /\ o.res = Zero /\ o.mdl = [Zero EXCEPT ![p] = <<(x * Bits) \div 2, 0>>]
=============================================================================
