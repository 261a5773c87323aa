------------------------------- MODULE CoordMC -------------------------------
(* Laws of the matrices and of the systems, for all small rational angles.    *)
EXTENDS Coord
CONSTANTS Triples
T3 == <<3, 4, 5>>
T5 == <<5, 12, 13>>
T8 == <<8, 15, 17>>
Small == {T3}
Big == {T3, T5}
Huge == {T3, T5, T8}
Angles == { <<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>> }
          \cup UNION { { <<t[1] * a, t[2] * b, t[3]>>, <<t[2] * a, t[1] * b, t[3]>> } : t \in Triples, a \in {1, -1}, b \in {1, -1} }
Decs == { a \in Angles : a[1] >= 0 }
Of(a, b) == Dir(b[1] * a[1], b[1] * a[2], b[2] * a[3], a[3] * b[3])     \* longitude a, latitude b
VARIABLES h, d, a, b
Init == h \in Angles /\ d \in Decs /\ a \in Angles /\ b \in Decs
Next == UNCHANGED <<h, d, a, b>>
Spec == Init /\ [][Next]_<<h, d, a, b>>
Unit(v) == (v[1] * v[1]) + (v[2] * v[2]) + (v[3] * v[3]) = v[4] * v[4]
V == Of(a, b)
Minus(x) == <<x[1], -x[2], x[3]>>
\* to topocentric and back is nothing; lengths are kept
Inverse == Unit(V) /\ (LET w == Apply(Eq2Top(h, d), V) IN w[4] > 46000 \/ Unit(w)) /\ Apply(Top2Eq(h, d), Apply(Eq2Top(h, d), V)) = V
\* what is at this hour angle and declination is overhead; the pole is north, at the altitude of the latitude; what is due south on
\* the equator, west of the meridian by a quarter turn, sets in the west
Overhead == /\ Apply(Eq2Top(h, d), Of(Minus(h), d)) = <<0, 0, 1, 1>>
            /\ Apply(Eq2Top(h, d), <<0, 0, 1, 1>>) = Dir(0, d[1], d[2], d[3])
West == Apply(Eq2Top(<<1, 0, 1>>, d), <<0, -1, 0, 1>>) = <<-1, 0, 0, 1>>
\* rotations keep their axis, add up, undo, and turn right handedly
Rotation == /\ Apply(Rot(h, V), V) = V
            /\ Apply(Rot(Minus(h), V), Apply(Rot(h, V), Of(d, b))) = Of(d, b)
            /\ Apply(Rot(h, <<0, 0, 1, 1>>), <<1, 0, 0, 1>>) = Of(h, <<1, 0, 1>>)
            /\ Apply(Rot(h, <<1, 0, 0, 1>>), <<0, 1, 0, 1>>) = Dir(0, h[1], h[2], h[3])
            /\ Apply(Rot(h, <<0, 1, 0, 1>>), <<0, 0, 1, 1>>) = Dir(h[2], 0, h[1], h[3])

Systems == {"eq2000", "eq1950", "ec2000", "ec1950", "ga2000", "ga1950"}
Once == h = <<1, 0, 1>> /\ d = h /\ a = h /\ b = h
Orthogonal == Once => \A s \in Systems, i, j \in 1..3 :
  Abs(Dot3(Row(Table(s), i), Row(Table(s), j)) - (IF i = j THEN 100000000 ELSE 0)) <= 30000
\* poles and nodes: the ecliptic pole has declination 90 - 23.44 degrees, the galactic centre is in Sagittarius
Places == Once =>
          /\ AllNear(Seen("ec2000", <<0, 0, 1, 1>>), <<0, 3978, 9175>>, 2)
          /\ AllNear(Seen("ga2000", <<-55, -873, -484, 1000>>), <<10000, 0, 0>>, 12)
          /\ AllNear(Seen("eq1950", <<1, 0, 0, 1>>), <<10000, -112, -49>>, 2)
Consistent == Once => \A s, t \in Systems : AllNear(Between(s, t), LET m == Between(t, s) IN <<m[1], m[4], m[7], m[2], m[5], m[8], m[3], m[6], m[9]>>, 2)
=============================================================================
