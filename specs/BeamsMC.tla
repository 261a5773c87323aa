------------------------------ MODULE BeamsMC -------------------------------
(* Every history of three beams shared by antennas: channels, parameters and  *)
(* pointings, in any order.                                                   *)
EXTENDS Beams
CONSTANTS MaxOps

VARIABLES S, log
vars == <<S, log>>
Z == [az |-> 0, alt |-> 1, tw |-> 0]
B0 == [kind |-> "flat", xw |-> 0, yw |-> 0, poly |-> <<<<1>>>>, chans |-> <<>>]
Bs == << [B0 EXCEPT !.kind = "gauss", !.xw = 2, !.yw = 3],
         [B0 EXCEPT !.kind = "poly", !.poly = << <<3, 1>>, <<1, 0>>, <<-1, 1>> >>],
         B0 >>
As == << [b |-> 1, point |-> Z], [b |-> 1, point |-> [az |-> 1, alt |-> 0, tw |-> 2]], [b |-> 2, point |-> [az |-> 3, alt |-> 1, tw |-> 0]] >>
NoP == [xw |-> <<>>, yw |-> <<>>, poly |-> <<>>]
Ev == {[op |-> "set", via |-> v, i |-> i, p |-> p] : v \in {"ant", "beam"}, i \in {1, 2, 3},
          p \in {[NoP EXCEPT !.xw = <<4>>], [NoP EXCEPT !.yw = <<0>>, !.xw = <<1>>], [NoP EXCEPT !.poly = << <<2, 0>>, <<0, 1>>, <<1, 1>> >>]}}
      \cup {[op |-> "chans", via |-> v, i |-> 1, all |-> a, chans |-> <<1>>] : v \in {"ant", "beam", "array"}, a \in BOOLEAN}
      \cup {[op |-> "point", i |-> 2, point |-> p] : p \in {Z, [az |-> 2, alt |-> 0, tw |-> 1]}}
Init == log = <<>> /\ S = Do(0, [op |-> "new", freqs |-> <<1, 3>>, beams |-> Bs, ants |-> As])
Next == Len(log) < MaxOps /\ \E e \in Ev : S' = Do(S, e) /\ log' = Append(log, e)
Spec == Init /\ [][Next]_vars

Circle == {[k |-> "vec", a |-> v[1], b |-> v[2], c |-> v[3]] :
             v \in UNION {{<<a, 0, 6 - a>>, <<0, a, 6 - a>>, <<a, 6 - a, 0>>, <<-a, 0, 6 - a>>, <<0, -a, a - 6>>, <<-a, a - 6, 0>>} : a \in {0, 2, 4, 6}}}
Polar == {[k |-> "pol", z |-> z, az |-> m] : z \in 0..12, m \in 0..11}
(* An antenna sees the direction it points to as up, its beam turned by a
   quarter for the other polarization. *)
PointDir(pt) == [k |-> "vec", a |-> 6 * (1 - pt.alt) * G!Sin(pt.az), b |-> 6 * (1 - pt.alt) * G!Cos(pt.az), c |-> 6 * pt.alt]
PointsUp == \A i \in 1..3, pol \in {"x", "y"} : ZenithAngle(Seen(S.ants[i].point, pol, PointDir(S.ants[i].point))) = 0
Turned == \A i \in 1..3, d \in Circle :
            LET x == Seen(S.ants[i].point, "x", d)  y == Seen(S.ants[i].point, "y", d)
            IN /\ y.a * y.a = x.b * x.b /\ y.b * y.b = x.a * x.a /\ y.c = x.c
               /\ Azimuth(x) # -1 => Azimuth(y) = (Azimuth(x) + 3) % 12
(* The two notations of a direction agree. *)
Vec(d) == CASE d.az % 12 = 0 -> [k |-> "vec", a |-> 0, b |-> 6 - Abs(6 - d.z), c |-> 6 - d.z]
            [] d.az % 12 = 3 -> [k |-> "vec", a |-> 6 - Abs(6 - d.z), b |-> 0, c |-> 6 - d.z]
            [] d.az % 12 = 6 -> [k |-> "vec", a |-> 0, b |-> -(6 - Abs(6 - d.z)), c |-> 6 - d.z]
            [] OTHER -> [k |-> "vec", a |-> -(6 - Abs(6 - d.z)), b |-> 0, c |-> 6 - d.z]
Notations == \A d \in {d \in Polar : d.az % 3 = 0}, i \in 1..3, pol \in {"x", "y"} :
               LET v == Seen(S.ants[i].point, pol, Vec(d))  p == Seen(S.ants[i].point, pol, d)
               IN S.ants[i].point.alt = 1 => ZenithAngle(v) = ZenithAngle(p) /\ Azimuth(v) = Azimuth(p)
(* A beam is the same in opposite directions; the response decreases outward. *)
Even == \A b \in {S.beams[2]}, m \in 0..11, F \in {1, 3} : Width(b.poly, m, F) = Width(b.poly, (m + 6) % 12, F)
ASSUME \A a, b \in -6..6, w, v \in {0, 1, 2, 4} : Axis(a, w) + Axis(b, v) = Axis(-a, w) + Axis(-b, v)
ASSUME \A w \in {1, 2, 3, 4, 6, 12}, a \in 0..5 : Axis(a + 1, w) > Axis(a, w)
(* Few exponents fit; a beam that has a parameter that matters has another
   response. *)
Around(v) == (v - 4)..(v + 4)
Sharp == \A x \in 1..Len(S.freqs), d \in {d \in Polar : d.z \in {3, 6}} :
           LET W == Abs(Width(S.beams[2].poly, d.az, S.freqs[x]))
           IN W # 0 => Cardinality({y \in Around((2000 * d.z) \div W) : Fits(S.beams[2], d, S.freqs[x], <<0, y>>)}) \in 1..3
(* Only the last of each kind of operation matters. *)
Sets(b, k) == {x \in 1..Len(log) : log[x].op = "set" /\ b \in About(S, log[x]) /\ log[x].p[k] # <<>>}
Last(X) == CHOOSE x \in X : \A y \in X : y <= x
Memory == /\ S.beams[1].xw = (IF Sets(1, "xw") = {} THEN 2 ELSE log[Last(Sets(1, "xw"))].p.xw[1])
          /\ S.beams[1].yw = (IF Sets(1, "yw") = {} THEN 3 ELSE log[Last(Sets(1, "yw"))].p.yw[1])
          /\ S.beams[2].poly = (IF Sets(2, "poly") = {} THEN Bs[2].poly ELSE log[Last(Sets(2, "poly"))].p.poly)
          /\ S.beams[3] = New(Bs[3], S.freqs) \/ \E x \in 1..Len(log) : log[x].op = "chans" /\ 3 \in About(S, log[x])
          /\ \A b \in 1..3 : S.beams[b].kind = Bs[b].kind
(* Channels of beams that no operation is about remain. *)
Chans == \A b \in 1..3 : LET C == {x \in 1..Len(log) : log[x].op = "chans" /\ b \in About(S, log[x])}
                         IN S.beams[b].chans = (IF C = {} \/ log[Last(C)].all THEN All(S.freqs) ELSE log[Last(C)].chans)
=============================================================================
