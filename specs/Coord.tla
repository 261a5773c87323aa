-------------------------------- MODULE Coord --------------------------------
(***************************************************************************)
(* Directions and their representations (aipy/coord.py), the facets of the   *)
(* sphere (aipy/map.py: pack_sphere, facet_centers) and times (aipy/phs.py).  *)
(*                                                                          *)
(* A direction is a rational unit vector <<x, y, z, d>> (x/d, y/d, z/d); d = 0  *)
(* for a masked one.  An angle is <<c, s, d>>: cosine c/d, sine s/d.  Numbers   *)
(* of the code come in units of 1/K; an angle as <<K cos, K sin, n>>, n in      *)
(* millionths of a half turn.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
K == 100000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Dir(x, y, z, d) == LET g == Gcd(Gcd(Gcd(d, Abs(x)), Abs(y)), Abs(z))
                   IN IF d = 0 THEN <<0, 0, 0, 0>> ELSE <<x \div g, y \div g, z \div g, d \div g>>
\* matrices: <<nine entries by rows, den>>
Apply(m, v) == Dir((m[1][1] * v[1]) + (m[1][2] * v[2]) + (m[1][3] * v[3]),
                   (m[1][4] * v[1]) + (m[1][5] * v[2]) + (m[1][6] * v[3]),
                   (m[1][7] * v[1]) + (m[1][8] * v[2]) + (m[1][9] * v[3]), m[2] * v[4])
Transposed(m) == <<<<m[1][1], m[1][4], m[1][7], m[1][2], m[1][5], m[1][8], m[1][3], m[1][6], m[1][9]>>, m[2]>>
\* equatorial to topocentric (x east, y north, z up) at an hour angle and a declination
Eq2Top(h, a) ==
  <<<<h[2] * a[3], h[1] * a[3], 0,
      -(a[2] * h[1]), a[2] * h[2], a[1] * h[3],
      a[1] * h[1], -(a[1] * h[2]), a[2] * h[3]>>, h[3] * a[3]>>
Top2Eq(h, a) == Transposed(Eq2Top(h, a))
\* right handed rotation around a direction
Rot(a, n) ==
  LET D == n[4] * n[4]  q == a[3] - a[1]
      e(i, j, w) == (IF i = j THEN a[1] * D ELSE 0) + (q * n[i] * n[j]) + (w * a[2] * n[4])
  IN <<<<e(1, 1, 0), e(1, 2, -n[3]), e(1, 3, n[2]),
         e(2, 1, n[3]), e(2, 2, 0), e(2, 3, -n[1]),
         e(3, 1, -n[2]), e(3, 2, n[1]), e(3, 3, 0)>>, a[3] * D>>
Matrix(e, k) == CASE e.how = "eq2top" -> Eq2Top(e.h[k], e.a[k])
                  [] e.how = "top2eq" -> Top2Eq(e.h[k], e.a[k])
                  [] e.how = "rot" -> Rot(e.h[k], e.axis[k])

-----------------------------------------------------------------------------
(* What a direction looks like. *)
NearR(o, x, d, t) == Abs((o * d) - (x * K)) <= t * d          \* o / K is x / d
\* an angle whose cosine and sine are as cx : cy, between lo and hi
Along(o, cx, cy, lo, hi) ==
  /\ o[3] >= lo /\ o[3] <= hi
  /\ Abs((o[1] * cy) - (o[2] * cx)) <= 2 * (Abs(cx) + Abs(cy))
  /\ (o[1] * cx) + (o[2] * cy) >= 0
Round(o) == Abs(((o[1] \div 10) * (o[1] \div 10)) + ((o[2] \div 10) * (o[2] \div 10)) - 100000000) <= 40000
Pole(v) == v[1] = 0 /\ v[2] = 0
Looks(rep, v, o) ==
  CASE v[4] = 0 -> TRUE
    [] rep = "xyz" -> NearR(o[1], v[1], v[4], 2) /\ NearR(o[2], v[2], v[4], 2) /\ NearR(o[3], v[3], v[4], 2)
    [] rep = "thphi" -> /\ NearR(o[1][1], v[3], v[4], 2) /\ o[1][3] >= 0 /\ o[1][3] <= 1000000 /\ Round(o[1])
                        /\ (Pole(v) \/ Along(o[2], v[1], v[2], -1000000, 1000000)) /\ Round(o[2])
    [] rep = "radec" -> /\ (Pole(v) \/ Along(o[1], v[1], v[2], 0, 2000000)) /\ Round(o[1])
                        /\ NearR(o[2][2], v[3], v[4], 2) /\ o[2][3] >= -500000 /\ o[2][3] <= 500000 /\ Round(o[2])
    [] rep = "azalt" -> /\ (Pole(v) \/ Along(o[1], v[2], v[1], 0, 2000000)) /\ Round(o[1])
                        /\ NearR(o[2][2], v[3], v[4], 2) /\ o[2][3] >= -500000 /\ o[2][3] <= 500000 /\ Round(o[2])
\* the representation that each function takes and gives
Gives(fn) == CASE fn = "xyz2thphi" -> <<"xyz", "thphi">> [] fn = "thphi2xyz" -> <<"thphi", "xyz">>
               [] fn = "eq2radec" -> <<"xyz", "radec">> [] fn = "radec2eq" -> <<"radec", "xyz">>
               [] fn = "latlong2xyz" -> <<"radec", "xyz">>
               [] fn = "top2azalt" -> <<"xyz", "azalt">> [] fn = "azalt2top" -> <<"azalt", "xyz">>

-----------------------------------------------------------------------------
(* Coordinate systems: rows from equatorial J2000, in units of 1/10000.       *)
Table(sys) ==
  CASE sys = "eq2000" -> <<10000, 0, 0, 0, 10000, 0, 0, 0, 10000>>
    [] sys = "eq1950" -> <<9999, 112, 49, -112, 9999, 0, -49, 0, 10000>>
    [] sys = "ec2000" -> <<10000, 0, 0, 0, 9175, 3978, 0, -3978, 9175>>
    [] sys = "ec1950" -> <<9999, 112, 49, -122, 9174, 3978, 0, -3979, 9174>>
    [] sys = "ga2000" -> <<-549, -8734, -4838, 4941, -4448, 7470, -8677, -1981, 4560>>
    [] sys = "ga1950" -> <<-549, -8734, -4838, 4941, -4448, 7470, -8677, -1981, 4560>>
Row(t, i) == <<t[(3*i) - 2], t[(3*i) - 1], t[3*i]>>
Dot3(a, b) == (a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3])
\* the direction in a system, in units of 1/10000
Seen(sys, v) == [i \in 1..3 |-> (Dot3(Row(Table(sys), i), v)) \div v[4]]
\* from one system to another, in units of 1/10000
Between(a, b) == [k \in 1..9 |-> Dot3(Row(Table(b), ((k - 1) \div 3) + 1), Row(Table(a), ((k - 1) % 3) + 1)) \div 10000]
AllNear(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= t

-----------------------------------------------------------------------------
(* Facets: point k of n is at height -1 + (2k+1)/n and k golden angles around. *)
RECURSIVE Golden(_)
Golden(k) == IF k = 0 THEN <<10000, 0>>
             ELSE LET g == Golden(k - 1) IN <<((g[1] * (-7374)) - (g[2] * 6755)) \div 10000, ((g[2] * (-7374)) + (g[1] * 6755)) \div 10000>>
Height(n, k) == (-10000) + ((10000 * ((2 * k) + 1)) \div n)
Facet(p, n, k) == LET g == Golden(k) IN
  /\ Abs(p[3] - Height(n, k)) <= 3
  /\ Abs((p[1] * p[1]) + (p[2] * p[2]) + (p[3] * p[3]) - 100000000) <= 60000
  /\ Abs((p[1] * g[2]) - (p[2] * g[1])) <= 1000000
  /\ (p[1] * g[1]) + (p[2] * g[2]) >= 0
Facets(p, n) == Len(p) = n /\ \A k \in 0..n-1 : Cardinality({ i \in 1..n : Facet(p[i], n, k) }) = 1

-----------------------------------------------------------------------------
(* The world: things [rep, v], of directions in a representation; clocks. *)
W0 == << >>
Put(S, id, x) == [k \in 1..(IF id > Len(S) THEN id ELSE Len(S)) |-> IF k = id THEN x ELSE S[k]]
Refused(S, e) == e.op = "bad"
Do(S, e) ==
  CASE e.op = "new" -> Put(S, e.id, [rep |-> "xyz", v |-> e.v])
    [] e.op = "conv" -> Put(S, e.id, [rep |-> Gives(e.fn)[2], v |-> S[e.id].v])
    [] e.op = "turn" -> Put(S, e.id, [rep |-> "xyz", v |-> [k \in 1..Len(S[e.id].v) |-> Apply(Matrix(e, IF Len(e.h) = 1 THEN 1 ELSE k), S[e.id].v[k])]])
    [] OTHER -> S
Same(m, o, n) == \A k \in 1..9 : Abs(((o[k] * m[2]) - (m[1][k] * K))) <= 2 * m[2]
Clause(S, e) ==
  LET o == e.o IN
  IF e.op = "died" THEN "ends"
  ELSE IF Refused(S, e) THEN IF "err" \in DOMAIN o THEN "" ELSE "refused"
  ELSE IF "err" \in DOMAIN o THEN "works"
  ELSE LET T == Do(S, e) IN
  CASE e.op = "new" -> ""
    [] e.op = "conv" ->
         LET x == T[e.id] IN
         IF Len(o.v) # Len(x.v) THEN "shape"
         ELSE IF o.mask # [k \in 1..Len(x.v) |-> x.v[k][4] = 0] THEN "mask"
         ELSE IF \A k \in 1..Len(x.v) : Looks(x.rep, x.v[k], o.v[k]) THEN "" ELSE "direction"
    [] e.op = "turn" ->
         IF Len(o.m) # Len(e.h) THEN "shape"
         ELSE IF \E k \in 1..Len(e.h) : ~Same(Matrix(e, k), o.m[k], 9) THEN "matrix"
         ELSE IF \A k \in 1..Len(o.v) : Looks("xyz", T[e.id].v[k], o.v[k]) THEN "" ELSE "direction"
    [] e.op = "convert" ->
         IF ~AllNear(o.v, Seen(e.to, e.base), 5) THEN "system"
         ELSE IF o.lon < 0 \/ o.lon > 2000000 \/ o.lat < -500000 \/ o.lat > 500000 THEN "range" ELSE ""
    [] e.op = "matrix" -> IF AllNear(o.m, Between(e.from, e.to), 7) THEN "" ELSE "matrix"
    [] e.op = "facets" -> IF o.n # e.n THEN "number" ELSE IF o.pt = << >> \/ Facets(o.pt, e.n) THEN "" ELSE "facets"
    [] e.op = "time" -> IF o.got = e.t /\ o.back = e.t THEN "" ELSE "time"
    [] OTHER -> "unknown"
Due(S, e) == LET T == Do(S, e) IN IF "id" \in DOMAIN e THEN T[e.id] ELSE [rep |-> "none"]
=============================================================================
