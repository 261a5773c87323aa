------------------------------ MODULE SrcList -------------------------------
(* The scripts that list sources (srclist.py) and say where these are (lst). *)
(* Right ascensions and times of the day are in tenths of a second,          *)
(* declinations and other angles in tenths of a second of arc, fluxes in mJy.*)
(* A source is [name, cat, ra, dec, jys, mf, index, shape, ion], with ra and *)
(* dec <<>> or <<x>>: the Sun moves, and is where the season says.  Positions*)
(* are of date in the scripts, so that each comparison here has a margin     *)
(* within which a source may count or not.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Builtin

Day == 864000
Circle == 12960000
SeqSet(s) == {s[x] : x \in 1..Len(s)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x

(* Sine, times 10^4, by its values at multiples of 2.5 degrees. *)
Table == <<0, 436, 872, 1305, 1736, 2164, 2588, 3007, 3420, 3827, 4226, 4617, 5000, 5373, 5736, 6088, 6428, 6756, 7071, 7373, 7660,
           7934, 8192, 8434, 8660, 8870, 9063, 9239, 9397, 9537, 9659, 9763, 9848, 9914, 9962, 9990, 10000, 9990>>
Quarter(x) == LET k == x \div 90000 IN Table[k + 1] + ((Table[k + 2] - Table[k + 1]) * (x - k * 90000)) \div 90000
Sin(y) == LET x == y % Circle IN
          IF x <= 3240000 THEN Quarter(x)
          ELSE IF x <= 6480000 THEN Quarter(6480000 - x)
          ELSE IF x <= 9720000 THEN 0 - Quarter(x - 6480000)
          ELSE 0 - Quarter(Circle - x)
Cos(y) == Sin(y + 3240000)
(* cosine of the angle between two directions *)
CosSep(r1, d1, r2, d2) ==
  (Sin(d1) * Sin(d2)) \div 10000 + (((Cos(d1) * Cos(d2)) \div 10000) * Cos(15 * (r1 - r2))) \div 10000

(***************************************************************************)
(* Positions.                                                              *)
(***************************************************************************)
Season(k) == [first |-> <<>>, m |-> <<6000, 36000>>, ra |-> <<k * 216000>>, dec |-> <<CASE k = 1 -> 843840 [] k = 3 -> 0 - 843840 [] OTHER -> 0>>]
(* The pole and the equinox move: in a century right ascension grows by     *)
(* 3075 tenths of a second and what depends on the place, declination by     *)
(* 20040 tenths of a second of arc times the cosine of right ascension.      *)
(* Here from the middle of the way, to which half of the first guess leads.  *)
Grow(ra, dec, y) ==
  LET sin == Sin(15 * ra)  tan == (Sin(dec) * 100) \div Cos(dec) IN
  <<(3075 * y) \div 100 + (((((sin * tan) \div 100) * 1336) \div 10000) * y) \div 100, ((((Cos(15 * ra) * 20) * 1002) \div 10000) * y) \div 100>>
Of(ra, dec, y) ==
  LET g == Grow(ra, dec, y)
      h == Grow(ra + g[1] \div 2, dec + g[2] \div 2, y)
  IN [first |-> <<ra, dec>>, m |-> IF Abs(dec) > 2500000 THEN <<4000, 1800>> ELSE <<600, 1800>>, ra |-> <<(ra + h[1]) % Day>>, dec |-> <<dec + h[2]>>]
At(s, season, year) ==
                 IF s.ra # <<>> THEN IF year = 0 THEN [first |-> <<s.ra[1], s.dec[1]>>, m |-> <<600, 1800>>, ra |-> s.ra, dec |-> s.dec] ELSE Of(s.ra[1], s.dec[1], year)
                 ELSE IF s.name = "Sun" /\ season >= 0 THEN Season(season)
                 ELSE [first |-> <<>>, m |-> <<0, 0>>, ra |-> <<>>, dec |-> <<>>]
Body(s) == s.ra = <<>>

(***************************************************************************)
(* What is asked for: all, names (or directions), or a flux limit.         *)
(* q = [k, names, cut, cats]; dirs are the directions that are names.      *)
(***************************************************************************)
Asked(all, q) ==
  LET of == {s \in all : s.cat \in SeqSet(q.cats)} IN
  CASE q.k = "all" -> of
    [] q.k = "cut" -> {s \in of : s.jys > q.cut}
    [] OTHER -> {s \in of : s.name \in SeqSet(q.names)} \cup SeqSet(q.dirs)

(***************************************************************************)
(* Verdicts: "yes", "no" or "maybe".                                       *)
(***************************************************************************)
And(v, w) == IF v = "no" \/ w = "no" THEN "no" ELSE IF v = "yes" /\ w = "yes" THEN "yes" ELSE "maybe"
Or(v, w) == IF v = "yes" \/ w = "yes" THEN "yes" ELSE IF v = "no" /\ w = "no" THEN "no" ELSE "maybe"
Over(V) == IF V = {TRUE} THEN "yes" ELSE IF V = {FALSE} THEN "no" ELSE "maybe"
Between(x, lo, hi) == IF lo < hi THEN lo < x /\ x < hi ELSE x > lo \/ x < hi
(* Nutation and aberration are less than the margins p.m. *)
RaIn(p, r) == IF p.ra = <<>> THEN "maybe" ELSE Over({Between((p.ra[1] + e) % Day, r[1], r[2]) : e \in {0 - p.m[1], 0, p.m[1]}})
DecIn(p, r) == IF p.dec = <<>> THEN "maybe" ELSE Over({Between(p.dec[1] + e, r[1], r[2]) : e \in {0 - p.m[2], 0, p.m[2]}})
OnGrid(f) == f # <<>> /\ f[1] % 6000 = 0 /\ f[2] % 90000 = 0
(* Sources that do not move keep their separations. *)
Near(p, q, sep) ==
  IF p.ra = <<>> \/ q.ra = <<>> THEN "maybe"
  ELSE LET fixed == p.first # <<>> /\ q.first # <<>>
           m == IF OnGrid(p.first) /\ OnGrid(q.first) /\ sep % 90000 = 0 THEN 4 ELSE IF fixed THEN 20 ELSE 300
           d == (IF fixed THEN CosSep(p.first[1], p.first[2], q.first[1], q.first[2]) ELSE CosSep(p.ra[1], p.dec[1], q.ra[1], q.dec[1])) - Cos(sep)
       IN IF d > m THEN "yes" ELSE IF d < 0 - m THEN "no" ELSE "maybe"
RECURSIVE NearAny(_, _, _)
NearAny(p, Q, sep) == IF Q = {} THEN "no"
                      ELSE LET q == CHOOSE x \in Q : TRUE IN Or(Near(p, q, sep), NearAny(p, Q \ {q}, sep))

(* o = [src, excl, cen, sep, ra, dec, season, year]; excl, cen and the ranges are  *)
(* <<>> when not given; season is -1 without a date, when bodies that move   *)
(* have no place and are left out.                                           *)
Placed(S, o) == {s \in S : Body(s) => o.season >= 0}
Listed(all, o, s) ==
  LET p == At(s, o.season, o.year)
      cens == IF o.cen = <<>> THEN {} ELSE {At(c, o.season, o.year) : c \in Placed(Asked(all, o.cen[1]), o)}
  IN IF s \notin Placed(Asked(all, o.src), o) THEN "no"
     ELSE IF o.excl # <<>> /\ s.name \in {x.name : x \in Placed(Asked(all, o.excl[1]), o)} THEN "no"
     ELSE And(IF o.cen = <<>> THEN "yes" ELSE NearAny(p, cens, o.sep),
          And(IF o.ra = <<>> THEN "yes" ELSE RaIn(p, o.ra), IF o.dec = <<>> THEN "yes" ELSE DecIn(p, o.dec)))

(***************************************************************************)
(* Parameters of a source, in the units above (index in hundredths, shape  *)
(* in microradians): those that are asked for and that it has.             *)
(***************************************************************************)
Params(s) ==
  ("jys" :> s.jys) @@ ("index" :> s.index) @@ ("a1" :> s.shape[1]) @@ ("a2" :> s.shape[2]) @@ ("th" :> s.shape[3]) @@
  ("dra" :> 0) @@ ("ddec" :> 0) @@
  (IF Body(s) THEN << >> ELSE ("ra" :> s.ra[1]) @@ ("dec" :> s.dec[1]) @@ ("mfreq" :> s.mf))
Wanted(s, prms) == IF "*" \in SeqSet(prms) THEN Params(s)
                   ELSE [k \in SeqSet(prms) \cap DOMAIN Params(s) |-> Params(s)[k]]
Same(seen, due) == DOMAIN seen = DOMAIN due /\
                   \A k \in DOMAIN due : IF k = "ra" \/ k = "dec" THEN Abs(seen[k] - due[k]) <= 1 ELSE seen[k] = due[k]

(***************************************************************************)
(* Sidereal time, in tenths of a second, q 96ths of a day after noon of    *)
(* the first of January 2000, and mean longitudes of Sun and Moon.         *)
(***************************************************************************)
Gmst(q) == (673105 + (q % 96) * 9000 + q * 24 + (q \div 10000) * 6412 + ((q % 10000) * 6412) \div 10000) % Day
MeanSun(q) == (673105 + q * 24 + (q \div 10000) * 6412 + ((q % 10000) * 6412) \div 10000) % Day
MeanMoon(q) == (523958 + (q \div 100) * 32941 + (q % 100) * 329 + ((q % 100) * 41) \div 100) % Day
Lst(q, lon) == (Gmst(q) + lon) % Day
Apart(a, b, n) == LET d == (a - b) % n IN IF d > n \div 2 THEN n - d ELSE d
(* sine of the altitude *)
SinAlt(p, q, lon, lat) == CosSep(p.ra[1], p.dec[1], Lst(q, lon), lat)
(* how long until it culminates; a sidereal day is 0.27 percent shorter *)
Until(p, q, lon) == LET d == (p.ra[1] - Lst(q, lon)) % Day IN d - ((d \div 1000) * 2730) \div 1000

PlaceClause(o, x, p) ==
  IF Abs(Sin(x.alt) - SinAlt(p, o.q, o.lon, o.lat)) > 130 THEN "the altitude of a source"
  ELSE IF Apart(x.transit, Until(p, o.q, o.lon), 861641) > 900 THEN "the next transit of a source"
  ELSE ""

(***************************************************************************)
(* Judgement.                                                              *)
(***************************************************************************)
BuiltinWorld == {[name |-> b.name, cat |-> "misc", ra |-> IF b.pos = <<>> THEN <<>> ELSE <<b.pos[1] \div 10>>, dec |-> IF b.pos = <<>> THEN <<>> ELSE <<b.pos[2]>>,
                  jys |-> b.jys, mf |-> b.mf, index |-> b.index, shape |-> b.shape] : b \in BuiltinSources}
World(e) == IF e.op = "srclist" /\ e.misc THEN BuiltinWorld ELSE SeqSet(e.world)
Dirs1(e) == IF e.o.src.k = "names" THEN SeqSet(e.o.src.dirs) ELSE {}
RECURSIVE Sub(_, _)
Sub(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
             ELSE IF Head(s) = Head(t) THEN Sub(Tail(s), Tail(t)) ELSE Sub(s, Tail(t))
ByName(all, n) == CHOOSE s \in all : s.name = n

(* e.order: all names (and directions asked for), sorted. *)
ListClause(e) ==
  LET o == e.o
      all == World(e) \cup Dirs1(e)
      names == e.out.names
  IN IF ~Sub(names, e.order) THEN "sources in the order of their names"
     ELSE IF \E s \in all : Listed(World(e), o, s) = "no" /\ s.name \in SeqSet(names) THEN "no other source is listed"
     ELSE IF \E s \in all : Listed(World(e), o, s) = "yes" /\ s.name \notin SeqSet(names) THEN "each source that is selected is listed"
     ELSE ""
PrintClause(e) ==
  LET all == World(e) \cup Dirs1(e)
      got == e.out.prms
      Some(s) == DOMAIN Wanted(s, e.o.prms) # {}
  IN IF ~Sub([x \in 1..Len(got) |-> got[x].name], e.order) THEN "sources in the order of their names"
     ELSE IF \E s \in all : Listed(World(e), e.o, s) = "no" /\ s.name \in {got[x].name : x \in 1..Len(got)} THEN "no other source is listed"
     ELSE IF \E s \in all : Listed(World(e), e.o, s) = "yes" /\ Some(s) /\ s.name \notin {got[x].name : x \in 1..Len(got)} THEN "each source that is selected is listed"
     ELSE IF \E x \in 1..Len(got) : ~Same(got[x].p, Wanted(ByName(all, got[x].name), e.o.prms)) THEN "the parameters of a source"
     ELSE ""
(* what is printed for fitmdl means those parameters of these sources *)
FitClause(e) ==
  LET all == World(e) \cup Dirs1(e)
      got == e.out.fit
      due(s) == DOMAIN Wanted(s, e.o.prms)
  IN IF ~Sub([x \in 1..Len(got) |-> got[x].name], e.order) THEN "sources in the order of their names"
     ELSE IF \E s \in all : Listed(World(e), e.o, s) = "no" /\ s.name \in {got[x].name : x \in 1..Len(got)} THEN "no other source is listed"
     ELSE IF \E s \in all : Listed(World(e), e.o, s) = "yes" /\ s.name \notin {got[x].name : x \in 1..Len(got)} THEN "each source that is selected is listed"
     ELSE IF \E x \in 1..Len(got) : SeqSet(got[x].p) # due(ByName(all, got[x].name)) THEN "the names of the parameters of a source"
     ELSE IF /\ got # <<>> /\ \A x \in 1..Len(got) : got[x].p # <<>>
             /\ {<<e.out.parsed[x].name, SeqSet(e.out.parsed[x].p)>> : x \in 1..Len(e.out.parsed)} # {<<got[x].name, SeqSet(got[x].p)>> : x \in 1..Len(got)}
          THEN "fitmdl reads what is printed"
     ELSE ""

(* lst: e.out.days is what it says for each of the times e.o.times. *)
DayClause(e, x) ==
  LET d == e.out.days[x]
      o == [q |-> e.o.times[x], lon |-> e.o.lon, lat |-> e.o.lat]
      all == Asked(World(e), e.o.src)
      seen == d.srcs
      Bad(y) == LET s == ByName(all, seen[y].name) IN IF Body(s) THEN "" ELSE PlaceClause(o, seen[y], s)
      ecl == 15 * MeanSun(o.q)
  IN IF Apart(d.lst, Lst(o.q, o.lon), Day) > 20 \/ Apart(d.rad, d.lst, Day) > 1 THEN "the sidereal time"
     ELSE IF d.day # o.q \/ d.jd # o.q THEN "the day"
     ELSE IF Apart(d.sun[1], MeanSun(o.q), Day) > 10800 \/ Abs(Sin(d.sun[2]) - (Sin(ecl) * 3978) \div 10000) > 160 THEN "the place of the Sun"
     ELSE IF Apart(d.moon[1], MeanMoon(o.q), Day) > 30000 \/ Abs(d.moon[2]) > 1050000 THEN "the place of the Moon"
     ELSE IF {seen[y].name : y \in 1..Len(seen)} # {s.name : s \in all} \/ Len(seen) # Cardinality(all) THEN "the sources asked for"
     ELSE IF \E y \in 1..Len(seen) : Bad(y) # "" THEN Bad(CHOOSE y \in 1..Len(seen) : Bad(y) # "")
     ELSE ""
LstClause(e) ==
  IF Len(e.out.days) # Len(e.o.times) THEN "each of the times"
  ELSE IF \E x \in 1..Len(e.o.times) : DayClause(e, x) # "" THEN DayClause(e, CHOOSE x \in 1..Len(e.o.times) : DayClause(e, x) # "")
  ELSE ""

(* Centres need a separation. *)
Refused(e) == e.op = "srclist" /\ e.o.cen # <<>> /\ e.o.sep < 0
Clause(e) ==
  IF e.op \notin {"srclist", "lst"} THEN "the script returns"
  ELSE IF Refused(e) THEN IF e.rc = 0 THEN "centres without a separation are refused" ELSE ""
  ELSE IF e.rc # 0 THEN "the script runs"
  ELSE IF "bad" \in DOMAIN e.out THEN "what is printed can be read"
  ELSE IF e.op = "lst" THEN LstClause(e)
  ELSE CASE e.o.show = "names" -> ListClause(e)
         [] e.o.show = "prms" -> PrintClause(e)
         [] OTHER -> FitClause(e)
=============================================================================
