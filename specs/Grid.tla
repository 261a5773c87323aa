-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Gridding of samples onto a UV plane, and images of it (aipy/img.py: Img,  *)
(* ImgW; aipy/_dsp; aipy/utils: add2array).                                  *)
(*                                                                          *)
(* A sample lies at <<a, b>>, quarters of a cell from row 0, column 0 (a is   *)
(* -v / res, b is u / res, times 4).  It is spread by exp(-2 d^2), d the      *)
(* distance in cells, around the (periodic) plane.  Numbers are Gaussian      *)
(* integers in units of 2^-14 (and of the peak of the code's Gaussian); each  *)
(* plane carries a bound t of the error of a cell.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

One == 16384
Gauss == <<16384, 14459, 9937, 5319, 2217, 720, 182, 36, 5, 1>>
G(k) == IF k > 9 THEN 0 ELSE Gauss[k + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
C0 == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<(a[1] * b[1]) - (a[2] * b[2]), (a[1] * b[2]) + (a[2] * b[1])>>
Conj(a) == <<a[1], -a[2]>>
Near(a, b, t) == Abs(a[1] - b[1]) <= t /\ Abs(a[2] - b[2]) <= t
\* a number times a weight in units of 2^-14
Times(x, w) == <<((x[1] \div 64) * w) \div 256, ((x[2] \div 64) * w) \div 256>>

(* The weight of each of n cells around the axis, for a sample at a quarters. *)
RECURSIVE AxisSum(_, _, _, _, _)
AxisSum(a, n, r, j, to) ==
  IF j > to THEN 0
  ELSE (IF j % n = r THEN G(Abs((4 * j) - a)) ELSE 0) + AxisSum(a, n, r, j + 1, to)
Axis(a, n) == TLCEval([r \in 0..n-1 |-> AxisSum(a, n, r, (a \div 4) - 3, (a \div 4) + 4)])
\* in the plane, cell (r, c) is number r * d2 + c
Spread(d1, d2, a, b) ==
  LET A == Axis(a, d1)  B == Axis(b, d2)
  IN TLCEval([p \in 0..(d1*d2)-1 |-> ((A[p \div d2] * B[p % d2]) + (One \div 2)) \div One])
Flat(n) == [p \in 0..n-1 |-> C0]
\* samples: <<a, b, v>>, v a pair of small integers
RECURSIVE Put(_, _, _, _, _)
Put(f, d1, d2, s, k) ==
  IF k = 0 THEN f
  ELSE LET w == Spread(d1, d2, s[k].a, s[k].b)
       IN Put(TLCEval([p \in DOMAIN f |-> <<f[p][1] + (w[p] * s[k].v[1]), f[p][2] + (w[p] * s[k].v[2])>>]), d1, d2, s, k - 1)
RECURSIVE Tol(_, _)
Tol(s, k) == IF k = 0 THEN 2 ELSE (4 * (Abs(s[k].v[1]) + Abs(s[k].v[2]))) + 1 + Tol(s, k - 1)
\* the weighted mean of a plane around a place
RECURSIVE Mean(_, _, _)
Mean(f, w, k) == IF k < 0 THEN C0 ELSE CAdd(Times(f[k], w[k]), Mean(f, w, k - 1))
At(f, d1, d2, a, b) == Mean(f, Spread(d1, d2, a, b), (d1 * d2) - 1)

-----------------------------------------------------------------------------
(* Transforms, for 1, 2 or 4 cells in a row: quarter turns only. *)
I4 == << <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>> >>
Turn(n, k) == I4[(((4 \div n) * k) % 4) + 1]
RECURSIVE Dft(_, _, _, _, _)
Dft(f, n, sg, p, q) ==       \* sum of f(q) exp(sg 2 pi i (p . q) / n)
  IF q < 0 THEN C0
  ELSE CAdd(CMul(f[q], Turn(n, sg * (((p \div n) * (q \div n)) + ((p % n) * (q % n))))), Dft(f, n, sg, p, q - 1))
Ift(f, n) == TLCEval([p \in 0..(n*n)-1 |-> Dft(f, n, 1, p, (n * n) - 1)])       \* times n^2
Fft(f, n) == TLCEval([p \in 0..(n*n)-1 |-> Dft(f, n, -1, p, (n * n) - 1)])

(* Where a pixel lies: its east is its column counted down, its north its row *)
(* counted up, around the first pixel; in units of 1 / (n res).               *)
East(n, p) == LET c == p % n IN IF c > n \div 2 THEN n - c ELSE -c
North(n, p) == LET r == p \div n IN IF r > n \div 2 THEN r - n ELSE r
\* the first pixel to c
Recentred(f, d1, d2, c1, c2) == [p \in 0..(d1*d2)-1 |-> f[((((p \div d2) + c1) % d1) * d2) + (((p % d2) + c2) % d2)]]

(* W projection, planes of n = 1, 2, 4 cells, and resolution such that one     *)
(* pixel is 4/5 from the centre: one more and diagonal pixels are beyond the   *)
(* sphere.  A unit of w is 5/8 wavelengths: there, exp(-2 pi i w (3/5 - 1)) is *)
(* a quarter turn.                                                             *)
Ring(n, p) == (East(n, p) * East(n, p)) + (North(n, p) * North(n, p))
Screen(n, w, p) == IF Ring(n, p) = 0 THEN <<1, 0>> ELSE IF Ring(n, p) = 1 THEN I4[(w % 4) + 1] ELSE C0
Project(f, n, w) ==          \* to the w = 0 plane (n^2 times what is added to the plane is kept)
  LET im == Ift(f, n)
      sc == TLCEval([p \in 0..(n*n)-1 |-> CMul(im[p], Screen(n, w, p))])
      g == Fft(sc, n)
  IN TLCEval([p \in 0..(n*n)-1 |-> <<g[p][1] \div (n * n), g[p][2] \div (n * n)>>])
Plus(f, g) == TLCEval([p \in DOMAIN f |-> CAdd(f[p], g[p])])
RECURSIVE SumK(_, _)
SumK(s, k) == IF k = 0 THEN 0 ELSE s[k].w + SumK(s, k - 1)
\* chunks of samples that are put down together: of one w each, or (coarse) all
Ws(s) == { s[k].w : k \in 1..Len(s) }
Sub(s, w) == SelectSeq(s, LAMBDA x : x.w = w)
RECURSIVE PutW(_, _, _, _)
PutW(f, n, s, ws) ==
  IF ws = {} THEN f
  ELSE LET w == CHOOSE x \in ws : TRUE
           t == Sub(s, w)
       IN PutW(Plus(f, Project(Put(Flat(n * n), n, n, t, Len(t)), n, w)), n, s, ws \ {w})
PutCoarse(f, n, s) == IF s = << >> THEN f ELSE Plus(f, Project(Put(Flat(n * n), n, n, s, Len(s)), n, SumK(s, Len(s)) \div Len(s)))

-----------------------------------------------------------------------------
(* The world: images [n, terms, w (0: no projection, 1: fine, 2: coarse), uv,  *)
(* bm (of each term), t (of each of these)].                                   *)
W0 == << >>
New(e) == [n |-> e.n, w |-> e.w, uv |-> Flat(e.n * e.n), bm |-> [k \in 1..e.terms |-> Flat(e.n * e.n)], t |-> 2, tb |-> [k \in 1..e.terms |-> 2]]
Vals(e) == [k \in 1..Len(e.s) |-> [a |-> e.s[k].a, b |-> e.s[k].b, w |-> e.s[k].w, v |-> e.s[k].v]]
\* weights of a term: given for each term, or by default 1 for the first, 0 for others
Wgts(e, m) == [k \in 1..Len(e.s) |-> [a |-> e.s[k].a, b |-> e.s[k].b, w |-> e.s[k].w,
                                     v |-> IF e.wgt = "given" THEN <<e.s[k].wg[m], 0>> ELSE IF m = 1 THEN <<1, 0>> ELSE C0]]
Lay(x, f, s) == IF x.w = 0 THEN Put(f, x.n, x.n, s, Len(s))
                ELSE IF x.w = 1 THEN PutW(f, x.n, s, Ws(s)) ELSE PutCoarse(f, x.n, s)
TolOf(x, s) == Tol(s, Len(s)) * (IF x.w = 0 THEN 1 ELSE 5)
After(x, e) == [x EXCEPT !.uv = Lay(x, x.uv, Vals(e)), !.bm = [m \in DOMAIN x.bm |-> Lay(x, x.bm[m], Wgts(e, m))],
                         !.t = x.t + TolOf(x, Vals(e)), !.tb = [m \in DOMAIN x.tb |-> x.tb[m] + TolOf(x, Wgts(e, m))]]
Do(S, e) ==
  CASE e.op = "new" -> [k \in 1..(IF e.id > Len(S) THEN e.id ELSE Len(S)) |-> IF k = e.id THEN New(e) ELSE S[k]]
    [] e.op = "put" /\ e.apply -> [S EXCEPT ![e.id] = After(S[e.id], e)]
    [] OTHER -> S
Refused(S, e) == e.op = "bad"

Fn(s) == [p \in 0..Len(s)-1 |-> s[p + 1]]
AllNear(f, s, t) == Len(s) = Cardinality(DOMAIN f) /\ \A p \in DOMAIN f : Near(f[p], s[p + 1], t)
Planes(x, o) == /\ AllNear(x.uv, o.uv, x.t) /\ Len(o.bm) = Len(x.bm)
                /\ \A m \in DOMAIN x.bm : AllNear(x.bm[m], o.bm[m], x.tb[m])
\* one value got at a place (in 64ths): the ratio of data to weights around it
Ratio(num, den, t, v) ==
  IF Abs(den[1]) + Abs(den[2]) < 3000 THEN TRUE
  ELSE IF Abs(v[1]) > 3000 \/ Abs(v[2]) > 3000 THEN Abs(den[1]) + Abs(den[2]) < 20000
  ELSE LET l == CMul(v, den)  tol == (64 * t) + ((Abs(v[1]) + Abs(v[2])) * t) + (2 * (Abs(den[1]) + Abs(den[2])))
       IN Near(l, <<64 * num[1], 64 * num[2]>>, tol)
Got(x, pt, v) ==
  LET f == IF x.w = 0 THEN x.uv ELSE Project(x.uv, x.n, -pt.w)
      g == IF x.w = 0 THEN x.bm[1] ELSE Project(x.bm[1], x.n, -pt.w)
      t == 300 + (2 * (x.t + x.tb[1]))
  IN Ratio(At(f, x.n, x.n, pt.a, pt.b), At(g, x.n, x.n, pt.a, pt.b), t, v)
\* directions of the axes of an image centred on a right ascension and a declination, in quarter turns
Cq(k) == I4[(k % 4) + 1][1]
Sq(k) == I4[(k % 4) + 1][2]
Eq(ra, dec, l, m, z) ==
  <<(z * Cq(dec) * Cq(ra)) - (m * Sq(dec) * Cq(ra)) - (l * Sq(ra)),
    (z * Cq(dec) * Sq(ra)) - (m * Sq(dec) * Sq(ra)) + (l * Cq(ra)),
    (z * Sq(dec)) + (m * Cq(dec))>>
\* beyond the sphere (num / den is n * res)
Beyond(n, p, num, den) == Ring(n, p) * den * den >= num * num
Edge(n, p, num, den) == East(n, p) # 0 /\ North(n, p) # 0 /\ Ring(n, p) * den * den = num * num

Clause(S, e) ==
  LET o == e.o  x == IF "id" \in DOMAIN e /\ e.id <= Len(S) THEN S[e.id] ELSE [n |-> 0] IN
  IF e.op = "died" THEN "ends"
  ELSE IF Refused(S, e) THEN IF "err" \in DOMAIN o THEN "" ELSE "refused"
  ELSE IF "err" \in DOMAIN o THEN "works"
  ELSE LET bad == CASE
     e.op = "new" -> IF o.shape = <<e.n, e.n>> THEN "" ELSE "shape"
  [] e.op = "put" /\ e.apply -> ""
  [] e.op = "put" -> IF Planes(After([New([n |-> x.n, w |-> x.w, terms |-> Len(x.bm)]) EXCEPT !.t = 2], e), o.p) THEN "" ELSE "returned"
  [] e.op = "hermitian" ->
       LET h == e.s \o [k \in 1..Len(e.s) |-> [a |-> -e.s[k].a, b |-> -e.s[k].b, w |-> -e.s[k].w, v |-> Conj(e.s[k].v), wg |-> e.s[k].wg]]
       IN IF o.s = (IF e.wgt = "given" THEN h ELSE [k \in 1..Len(h) |-> [h[k] EXCEPT !.wg = << >>]]) THEN "" ELSE "hermitian"
  [] e.op = "get" -> IF Len(o.v) = Len(e.at) /\ \A k \in 1..Len(e.at) : Got(x, e.at[k], o.v[k]) THEN "" ELSE "got"
  [] e.op = "image" ->
       LET pl == IF e.term = 0 THEN x.uv ELSE x.bm[e.term]
           t == x.n * x.n * ((IF e.term = 0 THEN x.t ELSE x.tb[e.term]) + 2)
           im == Recentred(Ift(pl, x.n), x.n, x.n, e.c1, e.c2)
       IN IF Len(o.v) = x.n * x.n /\ \A p \in DOMAIN im : Abs(im[p][1] - o.v[p + 1]) <= t THEN "" ELSE "image"
  [] e.op = "lm" ->
       LET id == [p \in 0..(x.n * x.n)-1 |-> p]
           q == Recentred(id, x.n, x.n, e.c1, e.c2)
       IN IF \A p \in DOMAIN q : /\ (Edge(x.n, q[p], e.num, e.den) \/ o.mask[p + 1] = Beyond(x.n, q[p], e.num, e.den))
                                 /\ (o.mask[p + 1] = FALSE => o.l[p + 1] = East(x.n, q[p]) /\ o.m[p + 1] = North(x.n, q[p]))
          THEN "" ELSE "coordinates"
  [] e.op = "eq" ->
       LET id == [p \in 0..(x.n * x.n)-1 |-> p]
           q == Recentred(id, x.n, x.n, e.c1, e.c2)
       IN IF \A p \in DOMAIN q : Beyond(x.n, q[p], e.num, e.den) \/
               (Near(<<o.v[p + 1][1], o.v[p + 1][2]>>, LET d == Eq(e.ra, e.dec, 1000 * East(x.n, q[p]), 1000 * North(x.n, q[p]), o.z[p + 1]) IN <<d[1], d[2]>>, 9)
               /\ Near(<<o.v[p + 1][3], 0>>, <<Eq(e.ra, e.dec, 1000 * East(x.n, q[p]), 1000 * North(x.n, q[p]), o.z[p + 1])[3], 0>>, 9))
          THEN "" ELSE "equatorial"
  [] e.op = "uvs" ->
       IF \A p \in 0..(x.n * x.n)-1 : LET r == p \div x.n  c == p % x.n IN
             o.u[p + 1] = (IF r < x.n \div 2 THEN r ELSE r - x.n) /\ o.v[p + 1] = (IF c < x.n \div 2 THEN c ELSE c - x.n)
       THEN "" ELSE "cells"
  [] e.op = "indices" -> IF o.i = [k \in 1..Len(e.at) |-> <<e.at[k].a, e.at[k].b>>] THEN "" ELSE "indices"
  [] e.op = "grid" -> IF AllNear(Put(Flat(e.d1 * e.d2), e.d1, e.d2, e.s, Len(e.s)), o.v, Tol(e.s, Len(e.s))) THEN "" ELSE "gridded"
  [] e.op = "line" -> \* one axis
       LET f == [r \in 0..e.d2-1 |-> C0]
           RECURSIVE Ln(_, _)
           Ln(g, k) == IF k = 0 THEN g ELSE LET w == Axis(e.s[k].b, e.d2) IN Ln([p \in DOMAIN g |-> CAdd(g[p], <<w[p] * e.s[k].v[1], w[p] * e.s[k].v[2]>>)], k - 1)
       IN IF AllNear(Ln(f, Len(e.s)), o.v, Tol(e.s, Len(e.s))) THEN "" ELSE "gridded"
  [] e.op = "mean" -> \* of small whole numbers, in units of 1/64
       LET f == [p \in 0..(e.d1 * e.d2)-1 |-> <<64 * 64 * e.f[p + 1][1], 64 * 64 * e.f[p + 1][2]>>]
       IN IF \A k \in 1..Len(e.s) : Abs(o.v[k][1]) < 2000 /\ Abs(o.v[k][2]) < 2000 /\ LET w == Spread(e.d1, e.d2, e.s[k].a, e.s[k].b)
                                        n1 == At(f, e.d1, e.d2, e.s[k].a, e.s[k].b)
                                        n2 == At([p \in DOMAIN f |-> <<64 * 64, 0>>], e.d1, e.d2, e.s[k].a, e.s[k].b)[1]
                                    IN Near(<<o.v[k][1] * (n2 \div 8), o.v[k][2] * (n2 \div 8)>>, <<n1[1] * 8, n1[2] * 8>>, 40 * (n2 \div 64) + 900)
          THEN "" ELSE "mean"
  [] e.op = "add" ->
       LET RECURSIVE Tot(_, _)
           Tot(p, k) == IF k = 0 THEN e.f[p + 1] ELSE (IF e.ind[k] = p THEN CAdd(e.data[k], Tot(p, k - 1)) ELSE Tot(p, k - 1))
       IN IF o.v = [p \in 1..Len(e.f) |-> Tot(p - 1, Len(e.ind))] THEN "" ELSE "added"
  [] OTHER -> "unknown"
  IN IF bad # "" THEN bad
     ELSE LET T == Do(S, e) IN
          IF "a" \in DOMAIN e THEN IF Len(e.a) = Len(T) /\ \A k \in DOMAIN T : Planes(T[k], e.a[k]) THEN "" ELSE "planes"
          ELSE ""
Due(S, e) == IF "id" \in DOMAIN e /\ e.op = "put" THEN [n |-> S[e.id].n, uv |-> Do(S, e)[e.id].uv, t |-> Do(S, e)[e.id].t] ELSE [n |-> 0]
=============================================================================
