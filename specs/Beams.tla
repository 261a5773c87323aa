------------------------------- MODULE Beams --------------------------------
(* Beam patterns (aipy.amp, aipy.fit, aipy.pol): flat, Gaussian, and          *)
(* Gaussian with a width that is a polynomial in azimuth and frequency; alone *)
(* and as the beam of antennas that point somewhere and share it.             *)
(*                                                                            *)
(* Angles are multiples of 15 degrees, frequencies F/4 GHz, azimuths of       *)
(* "pol" directions 30 degrees.  A direction is one of                        *)
(*   "vec": the arcsines a, b, c of its coordinates east, north, up           *)
(*   "gen": the arcsines a, b; up is whatever it has to be                    *)
(*   "pol": zenith angle z and azimuth az (from north through east)           *)
(* Responses are compared by their exponents: E[1] is 288 (-2 log response)   *)
(* and E[2] is 1000 sqrt(-2 log response).                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
G == INSTANCE Array

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow(_, _), Horner(_, _), Sum(_)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* coefficients in ascending powers *)
Horner(c, F) == IF c = <<>> THEN 0 ELSE Head(c) + F * Horner(Tail(c), F)

(***************************************************************************)
(* Directions as the beam of an antenna sees them.                         *)
(***************************************************************************)
Turns(p, pol) == p.az - 1 - p.tw - (IF pol = "x" THEN 0 ELSE 1)
Seen(p, pol, d) ==
  CASE d.k = "pol" -> [d EXCEPT !.az = (@ - 3 * Turns(p, pol)) % 12]
    [] d.k = "gen" -> LET w == G!RotZ(Turns(p, pol), [x |-> d.a, y |-> d.b, z |-> 0]) IN [d EXCEPT !.a = w.x, !.b = w.y]
    [] OTHER -> LET w == G!InBeam(p, pol, [x |-> d.a, y |-> d.b, z |-> d.c]) IN [d EXCEPT !.a = w.x, !.b = w.y, !.c = w.z]
(* An antenna that does not point up sees "vec" directions only. *)
CanSee(p, d) == p.alt = 1 \/ d.k = "vec"

ZenithAngle(d) == IF d.k = "pol" THEN d.z ELSE 6 - d.c
(* azimuth in 30 degrees; -1 where it is none *)
Azimuth(d) ==
  CASE d.k = "pol" -> IF d.z % 12 = 0 THEN -1 ELSE d.az
    [] Abs(d.c) = 6 -> -1
    [] d.b = 0 -> IF d.a > 0 THEN 3 ELSE 9
    [] d.a = 0 -> IF d.b > 0 THEN 0 ELSE 6
    [] OTHER -> ((IF d.b > 0 THEN d.a ELSE 12 - d.a) % 24) \div 2

(***************************************************************************)
(* The width of a polynomial beam at azimuth m and frequency F, doubled.   *)
(* 2 cos(60 k m):                                                          *)
(***************************************************************************)
Cos2(n) == CASE n % 6 = 0 -> 2 [] n % 6 \in {1, 5} -> 1 [] n % 6 \in {2, 4} -> -1 [] OTHER -> -2
Width(poly, m, F) == Sum([k \in 1..Len(poly) |-> (IF k = 1 THEN 1 ELSE Cos2((k - 1) * m)) * Horner(poly[k], F)])

(* Part of a Gaussian beam along one axis; no width is an infinite one. *)
Axis(a, w) == IF w = 0 THEN 0 ELSE (144 * a * a) \div (w * w)
Near(x, y, t) == Abs(x - y) <= t
Fits(b, d, F, E) ==
  CASE b.kind = "flat" -> E[1] = 0 /\ E[2] = 0
    [] b.kind = "gauss" -> Near(E[1], Axis(d.a, b.xw) + Axis(d.b, b.yw), 1)
    [] OTHER -> LET z == ZenithAngle(d)
                    m == Azimuth(d)
                    W == IF m = -1 THEN 1 ELSE Abs(Width(b.poly, m, F))
                IN IF m = -1 THEN (z = 0 /\ \A x \in 0..11 : Width(b.poly, x, F) # 0) => E[2] <= 1
                   ELSE W = 0 \/ Near(E[2] * W, 2000 * z, W)

(***************************************************************************)
(* The machine: beams with their active channels, antennas that use them.  *)
(***************************************************************************)
All(fs) == [x \in 1..Len(fs) |-> x - 1]
New(b, fs) == [b EXCEPT !.chans = All(fs)]
SetBeam(b, p) ==
  CASE b.kind = "gauss" -> [b EXCEPT !.xw = IF p.xw = <<>> THEN @ ELSE p.xw[1], !.yw = IF p.yw = <<>> THEN @ ELSE p.yw[1]]
    [] b.kind = "poly" -> [b EXCEPT !.poly = IF p.poly = <<>> THEN @ ELSE p.poly]
    [] OTHER -> b
(* the beams that an event is about *)
About(S, e) == CASE e.via = "beam" -> {e.i} [] e.via = "ant" -> {S.ants[e.i].b} [] OTHER -> {S.ants[x].b : x \in 1..Len(S.ants)}
Do(S, e) ==
  CASE e.op = "new" -> [freqs |-> e.freqs, beams |-> [x \in 1..Len(e.beams) |-> New(e.beams[x], e.freqs)], ants |-> e.ants]
    [] e.op = "chans" -> LET B == About(S, e) IN [S EXCEPT !.beams = [x \in 1..Len(@) |-> IF x \in B THEN [@[x] EXCEPT !.chans = IF e.all THEN All(S.freqs) ELSE e.chans] ELSE @[x]]]
    [] e.op = "set" -> LET B == About(S, e) IN [S EXCEPT !.beams = [x \in 1..Len(@) |-> IF x \in B THEN SetBeam(@[x], e.p) ELSE @[x]]]
    [] e.op = "point" -> [S EXCEPT !.ants[e.i].point = e.point]
    [] OTHER -> S

Active(S, b) == [x \in 1..Len(b.chans) |-> S.freqs[b.chans[x] + 1]]
BeamOf(S, e) == S.beams[IF e.via = "beam" THEN e.i ELSE S.ants[e.i].b]
Looks(S, e, pol, d) == IF e.via = "beam" THEN d ELSE Seen(S.ants[e.i].point, pol, d)
Judge(S, e, pol, o) ==
  LET b == BeamOf(S, e)  fs == Active(S, b)
  IN CASE o.err -> "raised"
       [] o.shape # <<Len(fs), Len(e.d)>> -> "shape"
       [] \E x \in 1..Len(fs), y \in 1..Len(e.d) : ~Fits(b, Looks(S, e, pol, e.d[y]), fs[x], o.v[x][y]) -> "response"
       [] OTHER -> ""
(* What the parameters of a beam are. *)
Params(b) ==
  CASE b.kind = "gauss" -> [bm_xwidth |-> <<b.xw>>, bm_ywidth |-> <<b.yw>>]
    [] b.kind = "poly" -> [bm_poly |-> [x \in 1..(Len(b.poly) * Len(b.poly[1])) |-> b.poly[(x - 1) \div Len(b.poly[1]) + 1][((x - 1) % Len(b.poly[1])) + 1]]]
    [] OTHER -> <<>>
(* Stokes parameters of responses in ten thousandths. *)
Square(v, w, t) == Near(v, w, t)
Mixed(x, y, o, IQ) ==
  IF IQ THEN Near(2 * o * o, x * x + y * y, 2 * (x + y + 2 * o) + 4)
  ELSE Near(o * o, x * y, x + y + 2 * o + 4)
Clause(S, e) ==
  CASE e.op = "resp" -> Judge(S, e, e.pol, e.o)
    [] e.op = "stokes" -> IF e.o.err THEN "raised" ELSE
         (CASE \E x \in 1..Len(e.o.x), y \in 1..Len(e.d) : ~Mixed(e.o.x[x][y], e.o.y[x][y], e.o.I[x][y], TRUE) -> "Stokes I"
            [] \E x \in 1..Len(e.o.x), y \in 1..Len(e.d) : ~Mixed(e.o.x[x][y], e.o.y[x][y], e.o.Q[x][y], TRUE) -> "Stokes Q"
            [] \E x \in 1..Len(e.o.x), y \in 1..Len(e.d) : ~Mixed(e.o.x[x][y], e.o.y[x][y], e.o.U[x][y], FALSE) -> "Stokes U"
            [] \E x \in 1..Len(e.o.x), y \in 1..Len(e.d) : ~Mixed(e.o.x[x][y], e.o.y[x][y], e.o.V[x][y], FALSE) -> "Stokes V"
            [] OTHER -> "")
    [] e.op = "get" -> LET b == BeamOf(S, e)  P == Params(b) IN
         (CASE e.o.err -> "raised"
            [] b.kind = "flat" -> IF e.o.n = 0 THEN "" ELSE "parameters"
            [] OTHER -> IF e.o.n = Cardinality(DOMAIN P) /\ \A k \in DOMAIN P : k \in DOMAIN e.o.p /\ e.o.p[k] = P[k] THEN "" ELSE "parameters")
    [] e.op = "freqs" -> IF e.o = Active(S, BeamOf(S, e)) THEN "" ELSE "active channels"
    [] OTHER -> IF "err" \in DOMAIN e.o /\ e.o.err THEN "raised" ELSE ""
=============================================================================
