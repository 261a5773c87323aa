------------------------------- MODULE Healpix -------------------------------
(***************************************************************************)
(* Maps of the sphere (aipy/healpix.py: HealpixBase, HealpixMap; and        *)
(* aipy/map.py: Map, weighted averages of several of them).                 *)
(*                                                                          *)
(* A map is modelled by its contents per place: place p of resolution n is  *)
(* the p-th pixel in RING order, whatever the order in which the map stores *)
(* its pixels.  The two numberings, the centre of each pixel and the parent *)
(* of a pixel at a lower resolution are defined here in exact integers.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pow(b, k) == LET f[i \in 0..k] == IF i = 0 THEN 1 ELSE b * f[i-1] IN f[k]
Npix(n) == 12 * n * n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* The numberings. *)
\* the even bits of x < 64 as a number
Even(x) == (x % 2) + (2 * ((x \div 4) % 2)) + (4 * ((x \div 16) % 2))
FaceRow == <<2,2,2,2,3,3,3,3,4,4,4,4>>
FaceCol == <<1,3,5,7,0,2,4,6,1,3,5,7>>
\* number of pixels in rings before ring i (1..4n-1)
Before(n, i) == IF i <= n THEN 2 * i * (i - 1)
                ELSE IF i <= 3 * n THEN (2 * n * (n - 1)) + ((i - n) * 4 * n)
                ELSE Npix(n) - (2 * (4 * n - i) * (4 * n - i + 1))
InRing(n, i) == IF i < n THEN 4 * i ELSE IF i <= 3 * n THEN 4 * n ELSE 4 * (4 * n - i)

NestToRing(n, p) ==
  LET face == p \div (n * n)
      q == p % (n * n)
      x == Even(q)
      y == Even(q \div 2)
      i == (FaceRow[face+1] * n) - x - y - 1
      nr == IF i < n THEN i ELSE IF i > 3 * n THEN 4 * n - i ELSE n
      shift == IF i < n \/ i > 3 * n THEN 0 ELSE (i - n) % 2
      j0 == ((FaceCol[face+1] * nr) + x - y + 1 + shift) \div 2
      j == IF j0 > 4 * n THEN j0 - (4 * n) ELSE IF j0 < 1 THEN j0 + (4 * n) ELSE j0
  IN Before(n, i) + j - 1

Nsides == {1, 2, 4, 8}
N2R == [n \in Nsides |-> [p \in 0..Npix(n)-1 |-> NestToRing(n, p)]]
R2N == [n \in Nsides |-> [r \in 0..Npix(n)-1 |-> CHOOSE p \in 0..Npix(n)-1 : N2R[n][p] = r]]

\* pixel p of the given numbering as a place, and back
Place(n, scheme, p) == IF scheme = "RING" THEN p ELSE N2R[n][p]
Pixel(n, scheme, r) == IF scheme = "RING" THEN r ELSE R2N[n][r]
\* the place of resolution n that contains place r of resolution m >= n
Parent(m, n, r) == IF m = n THEN r ELSE N2R[n][R2N[m][r] \div ((m \div n) * (m \div n))]
Children(n, m, r) ==
  LET k == (m \div n) * (m \div n) IN IF m = n THEN {r} ELSE { N2R[m][(R2N[n][r] * k) + c] : c \in 0..k-1 }

(* The centre of place r: its ring and position in the ring give the height  *)
(* z*3n^2 and the azimuth phi*4s/pi, s being a quarter of the length of the  *)
(* ring.                                                                     *)
RingOf(n, r) == CHOOSE i \in 1..4*n-1 : Before(n, i) <= r /\ r < Before(n, i) + InRing(n, i)
Centre(n, r) ==
  LET i == RingOf(n, r)
      j == r - Before(n, i) + 1
      s == InRing(n, i) \div 4
      z == IF i <= n THEN (3 * n * n) - (i * i)
           ELSE IF i <= 3 * n THEN (4 * n * n) - (2 * i * n)
           ELSE ((4 * n - i) * (4 * n - i)) - (3 * n * n)
      half == IF i < n \/ i > 3 * n THEN 1 ELSE (i - n + 1) % 2
  IN [z |-> z, s |-> s, phi |-> (2 * j) - (IF half = 1 THEN 1 ELSE 2)]
Centres == [n \in Nsides |-> [r \in 0..Npix(n)-1 |-> Centre(n, r)]]

-----------------------------------------------------------------------------
(* Rational values, for the weighted maps. *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Rat(a, b) == LET g == Gcd(Abs(a), b) IN <<a \div g, b \div g>>
RAdd(x, y) == IF x[2] = y[2] /\ x[2] = 1 THEN <<x[1] + y[1], 1>>
              ELSE Rat((x[1] * y[2]) + (y[1] * x[2]), x[2] * y[2])
RMul(x, y) == Rat(x[1] * y[1], x[2] * y[2])
RDiv(x, y) == IF y[1] > 0 THEN Rat(x[1] * y[2], x[2] * y[1])
              ELSE Rat(-(x[1] * y[2]), x[2] * (-y[1]))
R0 == <<0, 1>>
R1 == <<1, 1>>

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN R0 ELSE RAdd(f[k], SumTo(f, k-1))
\* the sum of v[k] over the k with at[k] = r
SumAt(at, v, r) == SumTo([k \in 1..Len(at) |-> IF at[k] = r THEN v[k] ELSE R0], Len(at))
Range(s) == { s[k] : k \in DOMAIN s }

(* What an assignment does: places that are named get the sum of the values  *)
(* that are given for them, the others keep what they have.                  *)
Assign(v, at, vals) ==
  LET hit == Range(at) IN [r \in DOMAIN v |-> IF r \in hit THEN SumAt(at, vals, r) ELSE v[r]]
(* What adding does: nothing that is there is lost or counted twice.         *)
Plus(v, at, vals) ==
  LET hit == Range(at) IN [r \in DOMAIN v |-> IF r \in hit THEN RAdd(v[r], SumAt(at, vals, r)) ELSE v[r]]
\* the sum of the contents of the children
RECURSIVE SumSet(_, _)
SumSet(v, s) == IF s = {} THEN R0 ELSE LET c == CHOOSE c \in s : TRUE IN RAdd(v[c], SumSet(v, s \ {c}))
Lower(v, m, n) == [r \in 0..Npix(n)-1 |-> SumSet(v, Children(n, m, r))]

Zero(n) == [r \in 0..Npix(n)-1 |-> R0]
\* a list of pixels in the given order as contents per place
Contents(n, scheme, px) == [r \in 0..Npix(n)-1 |-> px[Pixel(n, scheme, r) + 1]]

-----------------------------------------------------------------------------
(* The system: maps h (HealpixMap) and weighted maps m (Map), and what each   *)
(* operation does to them.  An operation changes only the map it is done on.  *)
\* coordinates are pixels in the map's order or places of resolution e.at
At(n, sch, e) == [k \in 1..Len(e.px) |-> IF e.form = "px" THEN Place(n, sch, e.px[k]) ELSE Parent(e.at, n, e.px[k])]
Valid(n, e) == e.form # "px" \/ \A k \in 1..Len(e.px) : 0 <= e.px[k] /\ e.px[k] < Npix(n)
Vals(e, name) == IF Len(e[name]) = 1 THEN [k \in 1..Len(e.px) |-> e[name][1]] ELSE e[name]

W0 == [h |-> << >>, m |-> << >>]
New(n, sch, dt) == [n |-> n, sch |-> sch, dt |-> dt, ip |-> FALSE, v |-> Zero(n)]
NewSky(n, sch, k) == [n |-> n, sch |-> sch, w |-> Zero(n), f |-> Zero(n), x |-> [i \in 1..k |-> Zero(n)]]
Put(s, id, what) == IF id > Len(s) THEN Append(s, what) ELSE [s EXCEPT ![id] = what]
Prod(a, b) == [k \in 1..Len(a) |-> RMul(a[k], b[k])]
Look(v, at) == [k \in 1..Len(at) |-> v[at[k]]]
Weight(x) == IF x[1] > 0 THEN x ELSE R1
Averages(v, w, at) == [k \in 1..Len(at) |-> RDiv(v[at[k]], Weight(w[at[k]]))]
AtLeast(s, i, d) == IF i <= Len(s) THEN s[i] ELSE d
Lower2(v, m, n) == IF m = n THEN v ELSE Lower(v, m, n)

Refused(S, e) ==
  CASE e.op \in {"put", "get"} -> ~Valid(S.h[e.id].n, e)
    [] e.op = "setmap" -> e.n \notin Nsides
    [] OTHER -> FALSE

Do(S, e) ==
  IF Refused(S, e) THEN S ELSE
  CASE e.op = "new" -> [S EXCEPT !.h = Put(S.h, e.id, New(e.n, e.sch, e.dt))]
    [] e.op = "put" -> LET o == S.h[e.id]
                       IN [S EXCEPT !.h[e.id].v = Assign(o.v, At(o.n, o.sch, e), Vals(e, "vals"))]
    [] e.op = "scheme" -> [S EXCEPT !.h[e.id].sch = e.sch]
    [] e.op = "interp" -> [S EXCEPT !.h[e.id].ip = e.on]
    [] e.op = "setmap" -> [S EXCEPT !.h[e.id] = [n |-> e.n, sch |-> e.sch, dt |-> e.dt, ip |-> S.h[e.id].ip,
                                                 v |-> Contents(e.n, e.sch, e.vals)]]
    [] e.op = "from" -> LET o == S.h[e.id] s == S.h[e.src] IN [S EXCEPT !.h[e.id].v = Lower2(s.v, s.n, o.n)]
    [] e.op = "up" -> LET o == S.h[e.id] IN [S EXCEPT !.h[e.id].v = Contents(o.n, o.sch, e.o.px)]
    [] e.op = "fits" -> [S EXCEPT !.h = Put(S.h, e.to, [S.h[e.id] EXCEPT !.ip = FALSE])]
    [] e.op = "sky" -> [S EXCEPT !.m = Put(S.m, e.id, NewSky(e.n, e.sch, e.k))]
    [] e.op = "add" -> LET o == S.m[e.id]  at == At(o.n, o.sch, e)  ww == Vals(e, "w")  ff == Vals(e, "f")
                       IN [S EXCEPT !.m[e.id] = [o EXCEPT !.w = Plus(o.w, at, ww), !.f = Plus(o.f, at, Prod(ff, ww)),
                             !.x = [i \in 1..Len(o.x) |-> IF i <= Len(e.x) THEN Plus(o.x[i], at, Prod(e.x[i], ww)) ELSE o.x[i]]]]
    [] e.op = "putw" -> LET o == S.m[e.id]  at == At(o.n, o.sch, e)  ww == Vals(e, "w")  ff == Vals(e, "f")
                       IN [S EXCEPT !.m[e.id] = [o EXCEPT !.w = Assign(o.w, at, ww), !.f = Assign(o.f, at, Prod(ff, ww)),
                             !.x = [i \in 1..Len(o.x) |-> IF i <= Len(e.x) THEN Assign(o.x[i], at, Prod(e.x[i], ww)) ELSE o.x[i]]]]
    [] e.op = "reset" -> LET o == S.m[e.id]
                             dv(v) == [r \in DOMAIN v |-> RDiv(v[r], Weight(o.w[r]))]
                         IN [S EXCEPT !.m[e.id] = [o EXCEPT !.f = dv(o.f), !.x = [i \in 1..Len(o.x) |-> dv(o.x[i])],
                               !.w = [r \in DOMAIN o.w |-> IF o.w[r][1] > 0 THEN R1 ELSE R0]]]
    [] e.op = "nind" -> LET o == S.m[e.id] IN [S EXCEPT !.m[e.id].x = [i \in 1..e.k |-> AtLeast(o.x, i, Zero(o.n))]]
    [] e.op = "frommap" -> LET o == S.m[e.id]  s == S.m[e.src]
                           IN [S EXCEPT !.m[e.id] = [o EXCEPT !.w = Lower2(s.w, s.n, o.n), !.f = Lower2(s.f, s.n, o.n),
                                 !.x = [i \in 1..Len(o.x) |-> IF i <= Len(s.x) THEN Lower2(s.x[i], s.n, o.n) ELSE o.x[i]]]]
    [] e.op = "fitsmap" -> [S EXCEPT !.m = Put(S.m, e.to, S.m[e.id])]
    [] OTHER -> S

(* What an operation returns. *)
Due(S, e) ==
  CASE e.op = "get" -> [vals |-> Look(S.h[e.id].v, At(S.h[e.id].n, S.h[e.id].sch, e))]
    [] e.op = "raw" -> LET o == S.m[e.id]  at == At(o.n, o.sch, e)
                       IN [w |-> Look(o.w, at), f |-> Look(o.f, at), x |-> [i \in 1..Len(o.x) |-> Look(o.x[i], at)]]
    [] e.op = "item" -> LET o == S.m[e.id]  at == At(o.n, o.sch, e)
                       IN [f |-> Averages(o.f, o.w, at), x |-> [i \in 1..Len(o.x) |-> Averages(o.x[i], o.w, at)]]
    [] e.op = "fits" -> [ordering |-> IF S.h[e.id].sch = "RING" THEN "RING" ELSE "NESTED", nside |-> S.h[e.id].n,
                         last |-> Npix(S.h[e.id].n) - 1]
    [] e.op = "fitsmap" -> [ordering |-> IF S.m[e.id].sch = "RING" THEN "RING" ELSE "NESTED", nside |-> S.m[e.id].n,
                         last |-> Npix(S.m[e.id].n) - 1]
    [] e.op = "conv" -> [px |-> [k \in 1..Len(e.px) |-> IF e.from = e.to THEN e.px[k] ELSE Pixel(e.n, e.to, Place(e.n, e.from, e.px[k]))],
                         sch |-> e.to]
    [] e.op = "dims" -> [npix |-> Npix(e.n), nside |-> e.n, sch |-> e.sch, order |-> CHOOSE k \in 0..9 : Pow(2, k) = e.n, back |-> e.n]
    [] e.op = "c2p" -> [px |-> [k \in 1..Len(e.px) |-> Pixel(e.n, e.sch, Parent(e.at, e.n, e.px[k]))]]
    [] OTHER -> [ok |-> TRUE]

\* the maps as observed after the operation: places, whatever the order
SeenH(o) == [n |-> o.n, sch |-> o.sch, dt |-> o.dt, ip |-> o.ip, v |-> Contents(o.n, o.sch, o.px)]
SeenM(o) == [n |-> o.n, sch |-> o.sch, w |-> Contents(o.n, o.sch, o.w), f |-> Contents(o.n, o.sch, o.f),
             x |-> [i \in 1..Len(o.x) |-> Contents(o.n, o.sch, o.x[i])]]
SizedH(o) == o.n \in Nsides /\ o.sch \in {"RING", "NEST"} /\ Len(o.px) = Npix(o.n)
SizedM(o) == o.n \in Nsides /\ o.sch \in {"RING", "NEST"} /\ \A q \in {o.w, o.f} \cup Range(o.x) : Len(q) = Npix(o.n)

\* centres: height and azimuth of each pixel asked for
RightCentres(e) ==
  /\ Len(e.o.z) = Len(e.px) /\ Len(e.o.phi) = Len(e.px)
  /\ \A k \in 1..Len(e.px) :
       LET c == Centres[e.n][Place(e.n, e.sch, e.px[k])]
       IN e.o.z[k] = c.z /\ e.o.phi[k][1] * 4 * c.s = c.phi * e.o.phi[k][2]

(* Raising the resolution interpolates: no value is beyond those of the      *)
(* source, and a bright place is found again in its own children.            *)
Within(S, e) ==
  LET s == S.h[e.src].v
      lo == CHOOSE x \in Range(s) : \A y \in Range(s) : x[1] <= y[1]
      hi == CHOOSE x \in Range(s) : \A y \in Range(s) : x[1] >= y[1]
  IN \A k \in 1..Len(e.o.px) : lo[1] * 1000 <= e.o.px[k][1] /\ e.o.px[k][1] <= hi[1] * 1000
Found(S, e) ==
  LET s == S.h[e.src]  o == S.h[e.id]  v == Contents(o.n, o.sch, e.o.px)
      lone == { r \in DOMAIN s.v : s.v[r][1] # 0 }
  IN (Cardinality(lone) = 1 /\ o.n = 2 * s.n) =>
       LET p == CHOOSE r \in lone : TRUE  kids == Children(s.n, o.n, p)
       IN \A c \in kids : \A q \in DOMAIN v \ kids : v[c][1] > v[q][1]

Clause(S, e) ==
  IF e.op = "died" THEN "the library crashed or did not return"
  ELSE IF Refused(S, e) /\ "err" \notin DOMAIN e.o THEN "an impossible operation was accepted"
  ELSE IF ~Refused(S, e) /\ "err" \in DOMAIN e.o THEN "a possible operation was refused"
  ELSE IF e.op = "p2c" THEN (IF RightCentres(e) THEN "" ELSE "wrong position of a pixel")
  ELSE IF e.op = "up" /\ ~(\A k \in 1..Len(e.o.px) : e.o.px[k][2] = 1) THEN "wrong values"
  ELSE IF e.op = "up" /\ ~Within(S, e) THEN "interpolation beyond the values of the source"
  ELSE IF e.op = "up" /\ ~Found(S, e) THEN "interpolation moves a place"
  ELSE IF ~Refused(S, e) /\ e.op # "up" /\ (DOMAIN e.o # DOMAIN Due(S, e) \/ e.o # Due(S, e)) THEN "wrong values"
  ELSE LET N == Do(S, e)
       IN IF Len(e.h) # Len(N.h) \/ Len(e.m) # Len(N.m) THEN "wrong number of maps"
          ELSE IF ~(\A i \in DOMAIN e.h : SizedH(e.h[i])) \/ ~(\A i \in DOMAIN e.m : SizedM(e.m[i])) THEN "a map of impossible size"
          ELSE IF \E i \in DOMAIN e.h : SeenH(e.h[i]) # N.h[i] THEN "a map has other contents"
          ELSE IF \E i \in DOMAIN e.m : SeenM(e.m[i]) # N.m[i] THEN "a weighted map has other contents"
          ELSE ""
=============================================================================
