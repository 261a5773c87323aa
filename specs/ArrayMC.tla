------------------------------ MODULE ArrayMC -------------------------------
(* Every history of a small array: time, polarization, channels, parameters, *)
(* skies, in any order.                                                       *)
EXTENDS Array
CONSTANTS MaxOps, Qs, Lats

VARIABLES S, log
vars == <<S, log>>
Both(v) == [p \in {"x", "y"} |-> v]
A(x, y, z, ph, br, bi, am, pt) == [x |-> x, y |-> y, z |-> z, b |-> 0, k |-> 4, point |-> pt, ph |-> ph, br |-> br, bi |-> bi, amp |-> am]
Zenith == [az |-> 0, alt |-> 1, tw |-> 0]
Ants == << A(0, 5, 0, Both(<<1, 0>>), Both(<<1>>), Both(<<0>>), Both(1), Zenith),
           A(-5, 0, 10, [x |-> <<1, 2>>, y |-> <<0, 1>>], [x |-> <<1, 1>>, y |-> <<2>>], Both(<<1>>), [x |-> 1, y |-> 2], [az |-> 1, alt |-> 0, tw |-> 1]),
           A(5, 5, -5, [x |-> <<1, 0, 1>>, y |-> <<3, 3>>], Both(<<1>>), [x |-> <<-1>>, y |-> <<1, 0>>], Both(1), Zenith) >>
Src(ra, c, s, jys) == [k |-> "arr", ra |-> ra, c |-> c, s |-> s, dra |-> 0, ddec |-> 0, M |-> 1, jy |-> 1, index |-> 0, jys |-> jys, shape |-> <<0, 0, 0>>]
Sky1(n) == <<Src(0, 4, 3, [x \in 1..n |-> x])>>
Sky2(n) == <<Src(1, 5, 0, [x \in 1..n |-> 2]), [Src(3, 3, -4, [x \in 1..n |-> 3]) EXCEPT !.dra = 1, !.shape = <<1, 0, 1>>]>>

Ev == {[op |-> "time", q |-> q] : q \in Qs}
      \cup {[op |-> "pol", pol |-> p] : p \in {<<"x", "x">>, <<"x", "y">>, <<"y", "x">>}}
      \cup {[op |-> "chans", all |-> FALSE, chans |-> <<1>>], [op |-> "chans", all |-> TRUE, chans |-> <<>>]}
      \cup {[op |-> "set", d |-> <<[i |-> 1, p |-> <<d>>]>>] : d \in {[k |-> "x", pol |-> "", v |-> <<10>>], [k |-> "dly", pol |-> "x", v |-> <<3>>], [k |-> "amp", pol |-> "", v |-> <<2>>]}}
      \cup {[op |-> "point", i |-> 1, point |-> [az |-> 2, alt |-> 0, tw |-> 0]]}
Init == \E q \in Qs, lat \in Lats : log = <<>> /\
        S = Do(0, [op |-> "new", ant |-> Ants, freqs |-> <<1, 3>>, lat |-> [c |-> lat[1], s |-> lat[2]], q |-> q, pol |-> <<"x", "y">>])
Next == /\ Len(log) < MaxOps
        /\ \E e \in Ev \cup {[op |-> "cache", srcs |-> Sky1(Len(S.chans))], [op |-> "cache", srcs |-> Sky2(Len(S.chans))]} :
             S' = Do(S, e) /\ log' = Append(log, e)
Spec == Init /\ [][Next]_vars

AllLats == {<<4, 3>>, <<3, -4>>, <<0, 5>>, <<5, 0>>}
TwoLats == {<<4, 3>>, <<3, -4>>}
N == 1..Len(S.chans)
Swapped == [S EXCEPT !.pol = <<@[2], @[1]>>]
Skies == {Sky1(Len(S.chans)), Sky2(Len(S.chans)), Sky1(Len(S.chans)) \o Sky2(Len(S.chans))}
Srcs == {s : s \in UNION {SeqSet(k) : k \in Skies}}
V(T, i, j, sky) == [x \in N |-> Vis(T, i, j, sky, x)]
(* A baseline seen from the other end is conjugate, in the swapped polarization. *)
Close(a, b) == Abs(a[1] - b[1]) <= 2 /\ Abs(a[2] - b[2]) <= 2
Hermitian == \A i, j \in 1..3, k \in Skies : \A x \in N : Close(V(S, i, j, k)[x], Conj(V(Swapped, j, i, k)[x]))
Additive == \A i, j \in 1..3 : \A x \in N :
              Vis(S, i, j, Sky1(Len(S.chans)) \o Sky2(Len(S.chans)), x) = CAdd(Vis(S, i, j, Sky1(Len(S.chans)), x), Vis(S, i, j, Sky2(Len(S.chans)), x))
(* Baselines close, and keep their length in every projection. *)
Plus(a, b) == [x |-> a.x + b.x, y |-> a.y + b.y, z |-> a.z + b.z]
Norm(a) == a.x * a.x + a.y * a.y + a.z * a.z
Frames == {[k |-> "r"], [k |-> "e"], [k |-> "z"]} \cup Srcs
Closure == \A f \in Frames : /\ Plus(Toward(S, 1, 2, f), Toward(S, 2, 3, f)) = Toward(S, 1, 3, f)
                             /\ \A i, j \in 1..3 : Norm(Toward(S, i, j, f)) = Norm(Bl(S, i, j))
(* Directions keep their length, pointed beams see where they point as up. *)
Proper == \A s \in Srcs, i \in 1..3, p \in {"x", "y"} :
            Norm(Top(S, s)) = 625 /\ Norm(InBeam(S.ant[i].point, p, Top(S, s))) = 625
PointDir(pt) == [x |-> (1 - pt.alt) * Sin(pt.az), y |-> (1 - pt.alt) * Cos(pt.az), z |-> pt.alt]
PointsUp == \A i \in 1..3, p \in {"x", "y"} : InBeam(S.ant[i].point, p, PointDir(S.ant[i].point)) = [x |-> 0, y |-> 0, z |-> 1]
(* Phasing to a source undoes its phase: an unpolarized point source of the
   sky has constant phase. *)
Undoes == \A i, j \in 1..3, s \in Srcs : \A x \in N :
            LET P == Phasing(S, i, j, s)[x] IN CMul(P, Conj(P)) = <<1, 0>>
(* Only the last of each kind of operation matters. *)
LastOf(op) == LET I == {x \in 1..Len(log) : log[x].op = op} IN IF I = {} THEN 0 ELSE CHOOSE x \in I : \A y \in I : y <= x
Memory == /\ LastOf("time") # 0 => S.q = log[LastOf("time")].q
          /\ LastOf("pol") # 0 => S.pol = log[LastOf("pol")].pol
          /\ S.cache = "sky" <=> (LastOf("cache") > LastOf("time") /\ LastOf("cache") > LastOf("chans") /\ LastOf("cache") > LastOf("point"))
          /\ (LastOf("cache") = 0 \/ LastOf("cache") < LastOf("time")) <=> S.cache = "none"
          /\ S.cache = "sky" => S.sky = log[LastOf("cache")].srcs
=============================================================================
