------------------------------ MODULE HealpixMC ------------------------------
(* The numberings, centres and parents of Healpix.tla, checked for every     *)
(* pixel; one state per resolution and pixel.                                *)
EXTENDS Healpix
CONSTANT Sides
VARIABLES n, r
Init == n \in Sides /\ r \in 0..Npix(n)-1
Next == UNCHANGED <<n, r>>
Spec == Init /\ [][Next]_<<n, r>>
\* each place has one number in each order
OneToOne == /\ N2R[n][r] \in 0..Npix(n)-1 /\ N2R[n][R2N[n][r]] = r /\ R2N[n][N2R[n][r]] = r
            /\ \A q \in 0..Npix(n)-1 : N2R[n][q] = N2R[n][r] => q = r
\* rings go from north to south, pixels of a ring from west to east
Ordered == r > 0 => LET a == Centre(n, r-1) b == Centre(n, r)
                    IN a.z > b.z \/ (a.z = b.z /\ a.phi < b.phi /\ a.s = b.s)
\* azimuths are within one turn and evenly spaced
Spaced == LET c == Centre(n, r) IN 0 <= c.phi /\ c.phi < 8 * c.s /\ Abs(c.z) < 3 * n * n
\* southern hemisphere mirrors the northern one
Mirror == \E q \in 0..Npix(n)-1 : LET a == Centre(n, r) b == Centre(n, q) IN b.z = -a.z /\ b.phi = a.phi /\ b.s = a.s
\* a pixel has four children at twice the resolution, two at most in a ring, that are near it
Family == n > 1 => LET up == Parent(n, n \div 2, r)
                       kids == Children(n \div 2, n, up)
                   IN /\ up \in 0..Npix(n \div 2)-1 /\ r \in kids /\ Cardinality(kids) = 4
                      /\ \A q \in kids : Parent(n, n \div 2, q) = up
                      /\ Abs((4 * Centre(n \div 2, up).z) - Centre(n, r).z) <= 4 * n
\* the total does not change when the resolution is lowered
RECURSIVE Total(_, _)
Total(v, k) == IF k < 0 THEN R0 ELSE RAdd(v[k], Total(v, k-1))
Conserved == (n \in {2, 4}) => LET v == [q \in 0..Npix(n)-1 |-> <<IF q = r THEN 5 ELSE 1, 1>>]
                       IN Total(Lower(v, n, n \div 2), Npix(n \div 2) - 1) = Total(v, Npix(n) - 1)
\* adding is assigning what was there and what is added
Adding == LET v == [q \in 0..Npix(n)-1 |-> <<q % 5, 1>>]
              at == <<r, (r + 1) % Npix(n), r>>
              x == << <<1, 2>>, <<3, 1>>, <<1, 2>> >>
              w == Assign(v, at, x)
              p == Plus(v, at, x)
          IN /\ w[r] = <<1, 1>> /\ p[r] = RAdd(v[r], R1)
             /\ \A q \in 0..Npix(n)-1 : q \notin Range(at) => w[q] = v[q] /\ p[q] = v[q]
\* reordering: contents are the same for the list in either order
Orders == LET v == [q \in 0..Npix(n)-1 |-> <<q + r, 1>>]
              a == [k \in 1..Npix(n) |-> v[Place(n, "NEST", k - 1)]]
              b == [k \in 1..Npix(n) |-> v[Place(n, "RING", k - 1)]]
          IN (r < 4) => Contents(n, "NEST", a) = Contents(n, "RING", b)
=============================================================================
