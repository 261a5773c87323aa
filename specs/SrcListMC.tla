------------------------------ MODULE SrcListMC -----------------------------
(* Laws of SrcList.tla over every list of options of a small world, built one *)
(* option at a time.                                                          *)
EXTENDS SrcList
CONSTANTS Hours, Decs, Steps

Src(n, c, h, d, j) == [name |-> n, cat |-> c, ra |-> <<h * 36000>>, dec |-> <<d * 36000>>, jys |-> j, mf |-> 150, index |-> 0, shape |-> <<0, 0, 0>>]
All == {Src("a", "A", 0, 0, 1000), Src("b", "A", 3, 30, 2000), Src("c", "B", 12, 0 - 40, 3000), Src("d", "B", 23, 70, 500), Src("e", "A", 0, 10, 4000),
        [Src("Sun", "A", 0, 0, 9000) EXCEPT !.ra = <<>>, !.dec = <<>>]}
Q(k, names, cut, cats) == [k |-> k, names |-> names, cut |-> cut, cats |-> cats, dirs |-> <<>>]
Queries == {Q("all", <<>>, 0, <<"A", "B">>), Q("all", <<>>, 0, <<"B">>), Q("names", <<"a", "Sun">>, 0, <<"A", "B">>), Q("cut", <<>>, 1000, <<"A", "B">>), Q("names", <<"e">>, 0, <<"A">>)}
VARIABLES o, n
Init == n = 0 /\ \E q \in Queries, s \in {-1, 0, 1} : o = [src |-> q, excl |-> <<>>, cen |-> <<>>, sep |-> 0, ra |-> <<>>, dec |-> <<>>, season |-> s, year |-> IF s = 1 THEN 8 ELSE 0]
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E q \in Queries : o' = [o EXCEPT !.excl = <<q>>]
           \/ \E q \in Queries, s \in {90000, 900000, 3240000} : o' = [o EXCEPT !.cen = <<q>>, !.sep = s]
           \/ \E a, b \in Hours : o' = [o EXCEPT !.ra = <<a * 36000 + 9000, b * 36000 + 9000>>]
           \/ \E a, b \in Decs : o' = [o EXCEPT !.dec = <<a * 36000, b * 36000>>]
Spec == Init /\ [][Next]_<<o, n>>

L(p) == {s \in All : Listed(All, p, s) = "yes"}
M(p) == {s \in All : Listed(All, p, s) # "no"}
(* Each option takes sources away and none brings one back. *)
Narrower == [][L(o') \subseteq M(o) \/ (o.excl # <<>> /\ o'.excl # o.excl) \/ (o.cen # <<>> /\ <<o'.cen, o'.sep>> # <<o.cen, o.sep>>)
               \/ (o.ra # <<>> /\ o'.ra # o.ra) \/ (o.dec # <<>> /\ o'.dec # o.dec)]_<<o, n>>
(* A range and its complement have each source once. *)
Split == /\ (o.ra # <<>> /\ o.ra[1] # o.ra[2]) =>
               LET p == [o EXCEPT !.ra = <<o.ra[2], o.ra[1]>>]  q == [o EXCEPT !.ra = <<>>] IN
               L(o) \cap L(p) = {} /\ L(o) \cup L(p) \subseteq L(q) /\ L(q) \subseteq M(o) \cup M(p)
         /\ (o.dec # <<>> /\ o.dec[1] # o.dec[2]) =>
               LET p == [o EXCEPT !.dec = <<o.dec[2], o.dec[1]>>] IN L(o) \cap L(p) = {} /\ L(o) \cup L(p) \subseteq L([o EXCEPT !.dec = <<>>])
(* Whoever is excluded is not listed; a source is near itself. *)
Out == o.excl # <<>> => M(o) \cap Placed(Asked(All, o.excl[1]), o) = {}
Self == (o.cen = <<o.src>> /\ o.excl = <<>> /\ o.ra = <<>> /\ o.dec = <<>>) => {s \in Placed(Asked(All, o.src), o) : s.ra # <<>>} \subseteq L(o)
(* Wider separations have more. *)
Wider == o.cen # <<>> => L(o) \subseteq L([o EXCEPT !.sep = 3240000 + 900000]) \/ o.sep > 3240000
(* No date, no Sun. *)
Undated == o.season < 0 => \A s \in M(o) : s.ra # <<>>

ASSUME /\ \A k \in 0..143 : Sin(k * 90000) = 0 - Sin(0 - k * 90000) /\ Abs(Sin(k * 90000) * Sin(k * 90000) + Cos(k * 90000) * Cos(k * 90000) - 100000000) < 15000
       /\ \A k \in 0..143 : Abs(Sin(k * 90000 + 45000) * Sin(k * 90000 + 45000) + Cos(k * 90000 + 45000) * Cos(k * 90000 + 45000) - 100000000) < 100000
(* Sidereal days are 236.56 s shorter; 366.2422 of them are a year. *)
ASSUME /\ \A q \in {0, 1, 95, 96, 1000, 70000, 350640} : Apart(Gmst(q + 96), Gmst(q), Day) \in 2363..2368
       /\ \A q \in {0, 1, 95, 96, 1000, 70000} : Apart(Gmst(q + 35063), Gmst(q) + 9000 * 23, Day) < 60
       /\ \A q \in {0, 96, 1920} : Apart(Gmst(q), MeanSun(q), Day) <= 1
(* A source that culminates is as high as it gets. *)
ASSUME \A q \in {0, 50, 1000}, s \in {x \in All : x.ra # <<>>}, lon \in {0, 216000} :
         LET u == (864000 + Until(s, q, lon)) \div 9000 - 96 IN
         \A k \in {0, 10, 40, 90} : SinAlt(s, q + u, lon, 900000) + 60 >= SinAlt(s, q + k, lon, 900000)
=============================================================================
