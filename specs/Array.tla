------------------------------- MODULE Array --------------------------------
(* Antenna arrays (aipy.phs, aipy.amp, aipy.pol): baselines, phases, gains,  *)
(* and the visibilities that an array simulates of a sky.                    *)
(*                                                                           *)
(* Everything is exact in integers: antenna positions are multiples of 5 ns, *)
(* frequencies F/4 GHz, hour angles quarter turns, sines and cosines of      *)
(* declinations and of the latitude fifths, phases quarter turns, gains      *)
(* quarters.  Complex numbers are <<re, im>>.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Jinc

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
SeqSet(s) == {s[x] : x \in 1..Len(s)}
RECURSIVE Sum(_), Horner(_, _)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Horner(c, F) == IF c = <<>> THEN 0
                ELSE LET n == Len(c) IN Horner(SubSeq(c, 1, n - 1), F) * F + c[n]
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Conj(a) == <<a[1], -a[2]>>
(* i to the power k *)
Turn(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Cos(k) == Turn(k)[1]
Sin(k) == Turn(k)[2]

(***************************************************************************)
(* Geometry.  A direction is [ra |-> quarters, c |-> 5 cos dec,            *)
(* s |-> 5 sin dec].                                                       *)
(***************************************************************************)
Bl(S, i, j) == [x |-> S.ant[j].x - S.ant[i].x, y |-> S.ant[j].y - S.ant[i].y, z |-> S.ant[j].z - S.ant[i].z]
(* the baseline as seen from hour angle H and declination (c, s) *)
Project(b, H, c, s) ==
  [x |-> Sin(H) * b.x + Cos(H) * b.y,
   y |-> ((-s) * Cos(H) * b.x + s * Sin(H) * b.y + c * b.z) \div 5,
   z |-> (c * Cos(H) * b.x - c * Sin(H) * b.y + s * b.z) \div 5]
Toward(S, i, j, src) ==
  LET b == Bl(S, i, j)
  IN CASE src.k = "r" -> b
       [] src.k = "z" -> Project(b, 0, S.lat.c, S.lat.s)
       [] src.k = "e" -> [x |-> Cos(S.q) * b.x + Sin(S.q) * b.y, y |-> Cos(S.q) * b.y - Sin(S.q) * b.x, z |-> b.z]
       [] OTHER -> Project(b, S.q - src.ra, src.c, src.s)
(* topocentric (east, north, up) of a direction, in 25ths *)
Top(S, src) ==
  LET H == S.q - src.ra
  IN [x |-> -(5 * src.c * Sin(H)),
      y |-> S.lat.c * src.s - S.lat.s * src.c * Cos(H),
      z |-> S.lat.c * src.c * Cos(H) + S.lat.s * src.s]
Up(S, src) == Top(S, src).z > 0

RotZ(k, v) == [x |-> v.x * Cos(k) - v.y * Sin(k), y |-> v.x * Sin(k) + v.y * Cos(k), z |-> v.z]
RotY(k, v) == [x |-> v.x * Cos(k) + v.z * Sin(k), y |-> v.y, z |-> v.z * Cos(k) - v.x * Sin(k)]
(* coordinates of the beam of an antenna that points at (az, alt), twisted *)
InBeam(p, pol, v) ==
  LET w == RotZ(-p.tw, RotY(p.alt - 1, RotZ(p.az - 1, v)))
  IN IF pol = "x" THEN w ELSE RotZ(-1, w)
(* The beam of the driver is a table over signs of coordinates. *)
Response(S, i, pol, src, F) ==
  LET w == InBeam(S.ant[i].point, pol, Top(S, src)) IN S.ant[i].k + 2 * Sgn(w.x) + Sgn(w.y) + (F % 2)

(***************************************************************************)
(* Phases and gains at frequency F/4.                                      *)
(***************************************************************************)
PhsOff(S, i, pol, F) == Horner(S.ant[i].ph[pol], F)
P1(S) == S.pol[1]
P2(S) == S.pol[2]
\* of a Stokes parameter, from the offsets of the polarizations that it is made of
Offset(S, i, j, F) ==
  LET d(p, q) == PhsOff(S, j, q, F) - PhsOff(S, i, p, F) IN
  IF Len(S.pol) = 2 THEN d(P1(S), P2(S))
  ELSE CASE S.pol[1] = "I" -> d("x", "x") + d("y", "y") [] S.pol[1] = "Q" -> d("y", "y") - d("x", "x")
         [] S.pol[1] = "U" -> d("x", "y") + d("y", "x") [] OTHER -> d("x", "y") - d("y", "x")
(* four times the passband; a coefficient list has one or two entries *)
Poly4(c, F) == IF Len(c) = 1 THEN 4 * c[1] ELSE c[1] * F + 4 * c[2]
Gain(S, i, pol, F) == LET a == S.ant[i] IN <<a.amp[pol] * Poly4(a.br[pol], F), a.amp[pol] * Poly4(a.bi[pol], F)>>
Passband(S, i, j, F) == CMul(Conj(Gain(S, i, P1(S), F)), Gain(S, j, P2(S), F))

(* quarter turns by which the ionosphere moves the phase: offsets are
   multiples of 12 radians at frequency M/4 *)
Refract(src, b, F) == (12 * (src.dra * b.x + src.ddec * b.y) * src.M * src.M) \div F
Phase(S, i, j, src, F) ==
  LET b == Toward(S, i, j, src)
  IN b.z * F + (IF src.k \in {"arr", "obj"} THEN Refract(src, b, F) ELSE 0) + Offset(S, i, j, F)
(* How much a uniform disk is resolved: 2 J1(x)/x at the fifths x, in ten
   thousandths (Jinc.tla).  A source has shape <<a1, a2, th>>: axes in units of
   2/(5 pi) radians, one of them zero, and quarter turns. *)
Shape(src) == IF src.k \in {"arr", "obj"} THEN src.shape ELSE <<0, 0, 0>>
Resolved(S, i, j, src, F) ==
  LET b == Toward(S, i, j, src)
      h == Shape(src)
      x == Abs(h[1] * (b.x * Cos(h[3]) - b.y * Sin(h[3])) * F) + Abs(h[2] * (b.x * Sin(h[3]) + b.y * Cos(h[3])) * F)
  IN IF x < Len(Jinc) THEN Jinc[x + 1] ELSE 0
(* a part of v in ten thousandths, without large products *)
Part(v, J) == (v \div 10000) * J + ((v % 10000) * J) \div 10000
PartC(v, J) == IF J = 10000 THEN v ELSE <<Part(v[1], J), Part(v[2], J)>>
(* the phasing that points to a source, for each active channel *)
Active(S) == [x \in 1..Len(S.chans) |-> S.freqs[S.chans[x] + 1]]
Phasing(S, i, j, src) == [x \in 1..Len(S.chans) |-> Turn(-Phase(S, i, j, src, Active(S)[x]))]

(***************************************************************************)
(* Simulated visibilities, 16 times.                                       *)
(***************************************************************************)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Flux(src, x, F) == IF src.jys = <<>> THEN src.jy * Pow(F, src.index) ELSE src.jys[x]
Whole(S, i, j, src, x) ==
  LET F == Active(S)[x]
      B == Response(S, i, P1(S), src, F) * Response(S, j, P2(S), src, F) * Flux(src, x, F)
      g == CMul(Passband(S, i, j, F), Turn(Phase(S, i, j, src, F)))
  IN <<B * g[1], B * g[2]>>
Source(S, i, j, src, x) == PartC(Whole(S, i, j, src, x), Resolved(S, i, j, src, Active(S)[x]))
RECURSIVE Vis(_, _, _, _, _), Size(_, _, _, _, _)
Vis(S, i, j, srcs, x) == IF srcs = <<>> THEN <<0, 0>>
  ELSE CAdd(IF Up(S, Head(srcs)) THEN Source(S, i, j, Head(srcs), x) ELSE <<0, 0>>, Vis(S, i, j, Tail(srcs), x))
Size(S, i, j, srcs, x) == IF srcs = <<>> THEN 0
  ELSE (IF Up(S, Head(srcs)) THEN LET v == Whole(S, i, j, Head(srcs), x) IN Abs(v[1]) + Abs(v[2]) ELSE 0) + Size(S, i, j, Tail(srcs), x)

(***************************************************************************)
(* The machine.  cache is "none" (nothing may be simulated), "stale" (what  *)
(* is simulated is not specified) or "sky".                                 *)
(***************************************************************************)
Pols(d) == IF d.pol = "" THEN {"x", "y"} ELSE {d.pol}
OnPols(f, d, v) == [p \in {"x", "y"} |-> IF p \in Pols(d) THEN v ELSE f[p]]
Coef(c, n, v) == [x \in 1..Len(c) |-> IF x = Len(c) - n THEN v ELSE c[x]]
SetOne(a, d) ==
  CASE d.k \in {"x", "y", "z"} -> [a EXCEPT ![d.k] = d.v[1]]
    [] d.k = "phsoff" -> [a EXCEPT !.ph = OnPols(@, d, d.v)]
    [] d.k = "dly" -> [a EXCEPT !.ph = [p \in {"x", "y"} |-> IF p \in Pols(d) THEN Coef(a.ph[p], 1, d.v[1]) ELSE a.ph[p]]]
    [] d.k = "off" -> [a EXCEPT !.ph = [p \in {"x", "y"} |-> IF p \in Pols(d) THEN Coef(a.ph[p], 0, d.v[1]) ELSE a.ph[p]]]
    [] d.k = "bp_r" -> [a EXCEPT !.br = OnPols(@, d, d.v)]
    [] d.k = "bp_i" -> [a EXCEPT !.bi = OnPols(@, d, d.v)]
    [] d.k = "amp" -> [a EXCEPT !.amp = OnPols(@, d, d.v[1])]
    [] OTHER -> a
RECURSIVE SetAll(_, _)
SetAll(a, ds) == IF ds = <<>> THEN a ELSE SetAll(SetOne(a, Head(ds)), Tail(ds))
Params(S, e) == [S EXCEPT !.ant = [x \in 1..Len(@) |->
                   LET E == {y \in 1..Len(e.d) : e.d[y].i = x} IN IF E = {} THEN @[x] ELSE SetAll(@[x], e.d[CHOOSE y \in E : TRUE].p)]]
Beams(S, bs) == [S EXCEPT !.ant = [x \in 1..Len(@) |->
                   LET B == {y \in 1..Len(bs) : bs[y].b = @[x].b} IN IF B = {} THEN @[x] ELSE [@[x] EXCEPT !.k = bs[CHOOSE y \in B : TRUE].k]]]

Do(S, e) ==
  CASE e.op = "new" -> [ant |-> e.ant, freqs |-> e.freqs, lat |-> e.lat, chans |-> [x \in 1..Len(e.freqs) |-> x - 1],
                        q |-> e.q, pol |-> e.pol, cache |-> "none", sky |-> <<>>]
    [] e.op = "time" -> [S EXCEPT !.q = e.q, !.cache = "none"]
    [] e.op = "pol" -> [S EXCEPT !.pol = e.pol]
    [] e.op = "chans" -> [S EXCEPT !.chans = IF e.all THEN [x \in 1..Len(S.freqs) |-> x - 1] ELSE e.chans,
                                   !.cache = IF @ = "sky" THEN "stale" ELSE @]
    [] e.op = "point" -> [S EXCEPT !.ant[e.i].point = e.point, !.cache = IF @ = "sky" THEN "stale" ELSE @]
    [] e.op = "set" -> Params(S, e)
    [] e.op = "beam" -> [Beams(S, e.bs) EXCEPT !.cache = IF @ = "sky" THEN "stale" ELSE @]
    [] e.op = "cache" -> [S EXCEPT !.cache = "sky", !.sky = e.srcs]
    [] OTHER -> S

Err == [err |-> TRUE]
Whatever == [any |-> TRUE]
Chan(S, f(_)) == [x \in 1..Len(S.chans) |-> f(x)]
(* The due result: numbers, for uvw the three components one after another. *)
Uvw(S, i, j, src) == LET b == Toward(S, i, j, src) A == Active(S)
                     IN [x \in 1..Len(A) |-> b.x * A[x]] \o [x \in 1..Len(A) |-> b.y * A[x]] \o [x \in 1..Len(A) |-> b.z * A[x]]
Thousandths(S, e) == LET P == Phasing(S, e.i, e.j, e.src)
  IN [x \in 1..Len(P) |-> LET J == IF e.res THEN Resolved(S, e.i, e.j, e.src, Active(S)[x]) ELSE 10000
                          IN <<(P[x][1] * J) \div 10, (P[x][2] * J) \div 10>>]
Below(S, src) == src.k = "obj" /\ ~Up(S, src)
NoPol(S) == S.pol = <<>>
Due(S, e) ==
  CASE e.op = "sim" -> IF S.cache = "stale" THEN Whatever
                       ELSE IF S.cache = "none" THEN Err
                       ELSE IF NoPol(S) THEN IF \E x \in 1..Len(S.sky) : Up(S, S.sky[x]) THEN Err ELSE Whatever
                       ELSE [v |-> [x \in 1..Len(S.chans) |-> Vis(S, e.i, e.j, S.sky, x)]]
    [] e.op = "base" -> IF Below(S, e.src) THEN Err
                        ELSE LET b == Toward(S, e.i, e.j, e.src) IN [n |-> <<b.x, b.y, b.z>>]
    [] e.op = "uvw" -> IF Below(S, e.src) THEN Err
                       ELSE [n |-> IF e.w THEN [x \in 1..Len(S.chans) |-> Toward(S, e.i, e.j, e.src).z * Active(S)[x]]
                                   ELSE Uvw(S, e.i, e.j, e.src)]
    [] e.op = "phs" -> IF Below(S, e.src) THEN Err ELSE [m |-> Thousandths(S, e)]
    [] e.op = "phs2src" -> IF Below(S, e.src) THEN Err
                           ELSE [v |-> [x \in 1..Len(S.chans) |-> CMul(e.data[x], Phasing(S, e.i, e.j, e.src)[x])]]
    [] e.op = "unphs" -> IF Below(S, e.src) THEN Err
                         ELSE [v |-> [x \in 1..Len(S.chans) |-> CMul(e.data[x], Conj(Phasing(S, e.i, e.j, e.src)[x]))]]
    [] e.op = "pass" -> [v |-> [x \in 1..Len(S.chans) |-> Passband(S, e.i, e.j, Active(S)[x])]]
    [] e.op = "off" -> [n |-> [x \in 1..Len(S.chans) |-> Offset(S, e.i, e.j, Active(S)[x])]]
    [] e.op = "freqs" -> [n |-> IF e.act THEN Active(S) ELSE S.freqs]
    [] e.op = "pairs" -> [p |-> {<<i, j>> \in (0..(Len(S.ant) - 1)) \X (0..(Len(S.ant) - 1)) :
                                   (i = j /\ e.auto) \/ (i < j /\ e.cross)}]
    [] OTHER -> [ok |-> TRUE]

(* Results are recorded in thousandths, those of sim in units. *)
Pointlike(S) == \A x \in 1..Len(S.sky) : Shape(S.sky[x])[1] = 0 /\ Shape(S.sky[x])[2] = 0
Tol(S, e, x) == IF e.op = "sim" THEN 2 + Size(S, e.i, e.j, S.sky, x) \div (IF Pointlike(S) THEN 20000 ELSE 1000) ELSE 2
Unit(e) == IF e.op = "sim" THEN 1 ELSE 1000
Near(a, b, t) == Abs(a - b) <= t
NearC(a, b, u, t) == Near(a[1], b[1] * u, t) /\ Near(a[2], b[2] * u, t)
Clause(S, e, due) ==
  IF e.op \in {"crash", "hang", "died"} THEN "operations return"
  ELSE IF due = Whatever THEN ""
  ELSE IF "err" \in DOMAIN e.o THEN IF due = Err THEN "" ELSE "the operation is accepted"
  ELSE IF due = Err THEN "the operation is refused"
  ELSE IF "n" \in DOMAIN due THEN IF Len(e.o.n) = Len(due.n) /\ \A x \in 1..Len(due.n) : Near(e.o.n[x], 1000 * due.n[x], 1) THEN "" ELSE "geometry, phases and frequencies"
  ELSE IF "p" \in DOMAIN due THEN IF Len(e.o.p) = Cardinality(due.p) /\ SeqSet(e.o.p) = due.p THEN "" ELSE "baselines of the array"
  ELSE IF "m" \in DOMAIN due THEN
       IF Len(e.o.v) = Len(due.m) /\ \A x \in 1..Len(due.m) : NearC(e.o.v[x], due.m[x], 1, 2) THEN "" ELSE "phases and gains of the baseline"
  ELSE IF "v" \in DOMAIN due THEN
       IF Len(e.o.v) # Len(due.v) THEN "one value for each active channel"
       ELSE IF \A x \in 1..Len(due.v) : NearC(e.o.v[x], due.v[x], Unit(e), Tol(S, e, x)) THEN ""
       ELSE IF e.op = "sim" THEN "visibilities of the sky that is up" ELSE "phases and gains of the baseline"
  ELSE ""
=============================================================================
