------------------------------- MODULE GridMC -------------------------------
(* The design: samples of a source, put down in any order, make an image that  *)
(* shows it where the coordinates of the image say, W projected or not.        *)
EXTENDS Grid
CONSTANTS Dims, Places, Wvals, MaxPut
VARIABLES n, src, put, uv, uvw, order
\* the phase of a source at pixel p for a sample at cell (r, c) and w: u east + v north + w (height - 1) turns
Seen(k, p, r, c, w) == CMul(Turn(k, (c * East(k, p)) - (r * North(k, p))), IF Ring(k, p) = 1 THEN Conj(I4[(w % 4) + 1]) ELSE <<1, 0>>)
Cells == { [a |-> 4 * r, b |-> 4 * c, w |-> w] : r \in Places, c \in Places, w \in Wvals }
Smp(x) == [a |-> x.a, b |-> x.b, w |-> x.w, v |-> Seen(n, src, x.a \div 4, x.b \div 4, x.w)]
Init == /\ n \in Dims /\ src \in { p \in 0..(n * n)-1 : Ring(n, p) <= 1 } /\ put = {} /\ uv = Flat(n * n) /\ uvw = Flat(n * n) /\ order = << >>
Next == \E x \in Cells \ put :
          /\ Cardinality(put) < MaxPut /\ put' = put \cup {x} /\ order' = Append(order, x)
          /\ uv' = Put(uv, n, n, <<Smp(x)>>, 1)
          /\ uvw' = PutW(uvw, n, <<Smp(x)>>, {x.w})
          /\ UNCHANGED <<n, src>>
Spec == Init /\ [][Next]_<<n, src, put, uv, uvw, order>>
View == <<n, src, put, uv, uvw>>
\* the source is where it should be: there all the samples add up, and nowhere is more
Shown == LET im == Ift(uvw, n)
             full == Ift(PutW(Flat(n * n), n, <<[a |-> 0, b |-> 0, w |-> 0, v |-> <<1, 0>>]>>, {0}), n)
         IN put # {} => /\ Near(im[src], <<Cardinality(put) * full[src][1], 0>>, 64 * Cardinality(put))
\* what was put down does not depend on the order, nor on how it was divided
Free == LET s == [k \in 1..Len(order) |-> Smp(order[Len(order) + 1 - k])]
        IN /\ uv = Put(Flat(n * n), n, n, s, Len(s))
           /\ LET g == PutW(Flat(n * n), n, s, Ws(s)) IN \A p \in DOMAIN g : Near(g[p], uvw[p], 2 * Len(s))
\* with w = 0, projection changes nothing within the sphere
Flatly == (\A x \in put : x.w = 0) => LET a == Ift(uv, n)  b == Ift(uvw, n) IN \A p \in DOMAIN a : Ring(n, p) <= 1 => Near(a[p], b[p], 64 * (1 + Cardinality(put)))
\* with the conjugate samples too, the image is real
Real == LET s == [k \in 1..Len(order) |-> Smp(order[k])]
            h == [k \in 1..Len(s) |-> [a |-> -s[k].a, b |-> -s[k].b, w |-> -s[k].w, v |-> Conj(s[k].v)]]
            im == Ift(PutW(uvw, n, h, Ws(h)), n)
        IN \A p \in DOMAIN im : Abs(im[p][2]) <= 64 * (1 + Cardinality(put))
=============================================================================
