------------------------------ MODULE ImagingMC ------------------------------
(* All histories of the scripts of images and maps on two small data sets,    *)
(* up to so many runs.  Every sample adds another power of two to an image,   *)
(* so that the values of an image tell which samples are in it.               *)
EXTENDS Imaging
CONSTANTS Most, Few
VARIABLES W, n, last
vars == <<W, n, last>>

SumSeq(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)
Rec(t, i, j, p, f) == [t |-> t, i |-> i, j |-> j, p |-> p, f |-> f]
A == << Rec(0, 0, 0, -5, <<0, 0>>), Rec(0, 0, 1, -5, <<0, 1>>), Rec(1, 0, 1, -5, <<1, 1>>), Rec(2, 0, 1, -5, <<0, 0>>) >>
B == << Rec(2, 0, 1, -5, <<0, 0>>), Rec(3, 0, 1, -6, <<0, 0>>), Rec(4, 0, 1, -5, <<1, 0>>) >>
Sets == ("a" :> A) @@ ("b" :> B)
Bit(f, k, c) == 2^(2 * ((IF f = "a" THEN 0 ELSE 4) + k - 1) + c - 1)
Vec(x) == <<x, 0, 0, 0, -x>>
\* the second source is down at the beginning
Alt(s, r) == IF s = "s" THEN 5 + r.t ELSE r.t - 1
Part(s, f, k) == LET r == Sets[f][k] IN
  [alt |-> Alt(s, r), len |-> IF r.i = r.j THEN <<0, 0>> ELSE <<4, 8>>,
   dim |-> [c \in 1..2 |-> Vec(Bit(f, k, c))], dbm |-> [c \in 1..2 |-> Vec(1)]]
Src(s, files) == [name |-> s, pos |-> [t \in 1..5 |-> [t |-> t - 1, ra |-> IF s = "s" THEN 10 ELSE 20, dec |-> 0]],
                  recs |-> [f \in ToSet(files) \cap DOMAIN Sets |-> [k \in 1..Len(Sets[f]) |-> Part(s, f, k)]]]
Base == [pre |-> "i", width |-> 2, pols |-> <<-5>>, ant |-> "all", ch |-> << >>, snap |-> -1, cnt |-> 0, skip |-> 0, size |-> 4, altmin |-> 0, minuv |-> 0, out |-> <<"dim", "dbm">>]
Opts == { [Base EXCEPT !.snap = s, !.cnt = c, !.skip = k, !.ant = a, !.minuv = m] : s \in {-1, 1, 2}, c \in {0, 1}, k \in {0, 1}, a \in {"all", "cross"}, m \in {0, 6} }
        \cup { [Base EXCEPT !.ch = c, !.pols = p, !.altmin = m, !.snap = s] : c \in { << >>, <<1>> }, p \in { <<-6>>, <<-5, -6>> }, m \in {1, 7}, s \in {-1, 2} }
Files == { <<"a">>, <<"b", "a">>, <<"a", "b">>, <<"a", "none">>, <<"b", "none", "a">> }
Run(sc, o, files, tab) == [op |-> "run", sc |-> sc, o |-> o, files |-> files, tab |-> tab]
FewOpts == { [Base EXCEPT !.snap = s, !.cnt = c] : s \in {-1, 2}, c \in {0, 1} }
MkRuns == IF Few THEN { Run("mk_img", o, f, [k \in 1..Len(s) |-> Src(s[k], f)]) : o \in FewOpts, f \in { <<"a", "b">>, <<"b", "none", "a">> }, s \in { <<"r", "s">> } }
          ELSE { Run("mk_img", o, f, [k \in 1..Len(s) |-> Src(s[k], f)]) : o \in Opts, f \in Files, s \in { <<"s">>, <<"r", "s">> } }

Known == { k \in {"i00", "i01", "i02", "zz", "z1"} : Has(W.img, Dim(k)) \/ Has(W.img, Dbm(k)) }
Pairs == { <<k>> : k \in Known } \cup { <<"i00", "i01">>, <<"i01", "zz">>, <<"z1", "zz">> }
Made(k) == [empty |-> Has(W.img, Dbm(k)) /\ W.img[Dbm(k)].v = Zeros(Px), cim |-> Vec(3), rim |-> Vec(-2), bim |-> Vec(1)]
ClRuns == { Run("cl_img", [deconv |-> d, plain |-> TRUE, out |-> o], << >>, [k \in ToSet(p) |-> Made(k)]) @@ [keys |-> p]
            : d \in {"none", "cln"}, o \in { <<"cim">>, <<"rim">>, <<"rim", "cim">> }, p \in Pairs }

\* what an image adds to a map: its first value to one place, its last to another
Onto(f) == IF Has(W.img, f) THEN [j2000 |-> TRUE, v |-> [p \in 1..12 |-> IF p = 3 THEN W.img[f].v[1] ELSE IF p = 4 THEN W.img[f].v[5] ELSE 0], w |-> [p \in 1..12 |-> IF p \in {3, 4} THEN 65536 ELSE 0]]
           ELSE [j2000 |-> TRUE, v |-> Zeros(12), w |-> Zeros(12)]
Pics == { f \in {"i00.dim.fits", "i01.dim.fits", "i00.rim.fits", "z1.dim.fits"} : Has(W.img, f) }
MapFiles == { <<f>> : f \in Pics } \cup { <<f, g>> : f \in Pics, g \in Pics \cup {"none"} }
MapRuns == { Run("mk_map", [map |-> m, nside |-> 1], f, [x \in ToSet(f) |-> Onto(x)]) : m \in {"m", "o"}, f \in MapFiles }
Lamps == { << >>, << [px |-> 2, flux |-> 512, index |-> -65536] >>, << [px |-> 2, flux |-> 512, index |-> -65536], [px |-> 7, flux |-> 256, index |-> 65536], [px |-> 2, flux |-> 768, index |-> 0] >> }
ModRuns == { Run("modmap", [map |-> m, nside |-> 1, nind |-> i, from |-> f, mscale |-> s, srcs |-> b], << >>, << >>)
             : m \in {"o", "p"}, i \in {0, 1}, f \in {"", "m", "p", "q"}, s \in {256, 512}, b \in Lamps }
\* the specification divides only by what goes
Exact(e) == IF e.sc = "modmap" THEN (IF e.o.from = "" THEN TRUE ELSE IF ~Has(W.map, e.o.from) THEN TRUE
                                    ELSE \A p \in 1..12 : LET x == W.map[e.o.from] IN IF x.w[p] = 0 THEN TRUE ELSE x.v[p] % (256 * (x.w[p] \div 65536)) = 0) ELSE TRUE

Pic(x) == [obj |-> "x", ra |-> 1, dec |-> 2, t |-> 0, n |-> 4, v |-> Vec(x)]
Map0 == [nside |-> 1, v |-> [p \in 1..12 |-> IF p < 4 THEN 256 * p ELSE IF p = 6 THEN -512 ELSE 0], w |-> [p \in 1..12 |-> IF p < 5 THEN 65536 ELSE IF p = 6 THEN 131072 ELSE 0], s |-> <<[p \in 1..12 |-> p]>>]
Init == W = [W0 EXCEPT !.dir = Sets, !.img = (Dim("zz") :> Pic(4)) @@ (Dbm("zz") :> Pic(0)) @@ (Dim("z1") :> Pic(512)) @@ (Dbm("z1") :> Pic(2)), !.map = "q" :> Map0] /\ n = 0 /\ last = [op |-> "make"]
Next == n < Most /\ n' = n + 1 /\ \E e \in MkRuns \cup ClRuns \cup MapRuns \cup ModRuns : (Exact(e) = TRUE) /\ W' = Do(W, e) /\ last' = e
Spec == Init /\ [][Next]_vars
View == <<W, n>>

(* what the runs are due, without the machine *)
Changed(v, w) == { f \in DOMAIN w : ~Has(v, f) \/ w[f] # v[f] }
Good(e) == ~Refused(W, e)
Value(im) == im.v[1]
\* the records a source is up at, whose baselines are wanted, of channels that are
In(o, s, f, k, c) == LET r == Sets[f][k] IN
  /\ r.f[c] = 0 /\ r.p \in ToSet(o.pols) /\ (o.ch = << >> \/ c - 1 \in ToSet(o.ch)) /\ (o.ant = "cross" => r.i # r.j)
  /\ Alt(s, r) >= o.altmin /\ (o.minuv = 0 \/ (r.i # r.j /\ (c = 1 => o.minuv <= 4)))
Samples(o, s, files) == { <<f, k, c>> \in (ToSet(files) \X (1..4) \X (1..2)) : f \in DOMAIN Sets /\ k <= Len(Sets[f]) /\ In(o, s, f, k, c) }
Sources(e) == { e.tab[k].name : k \in (e.o.skip + 1)..Len(e.tab) }
\* in all images of a source together every sample occurs once, and no other does
AllIn == (last'.op = "run" /\ last'.sc = "mk_img" /\ Good(last')) =>
  LET ims == AllImages(W, last') IN
  \A s \in Sources(last') :
    LET of == SelectSeq(ims, LAMBDA x : x[1].name = s) IN
      /\ SumSeq([k \in 1..Len(of) |-> of[k][2].dim[1]]) = SumSet({ Bit(x[1], x[2], x[3]) : x \in Samples(last'.o, s, last'.files) })
      /\ SumSeq([k \in 1..Len(of) |-> of[k][2].dbm[1]]) = Cardinality(Samples(last'.o, s, last'.files))
      \* no integration is in two images, and all images but the last have as many
      /\ \A k \in 1..Len(of) : last'.o.snap > 0 => (Len(of[k][2].ints) = last'.o.snap \/ (k = Len(of) /\ Len(of[k][2].ints) < last'.o.snap))
      /\ last'.o.snap <= 0 => Len(of) <= 1
      /\ Samples(last'.o, s, last'.files) # {} => Len(of) >= 1
\* the files are numbered from the number that is given, and all are there
Numbered == (last'.op = "run" /\ last'.sc = "mk_img" /\ Good(last')) =>
  LET k == Len(AllImages(W, last'))  all == { Name(last'.o, m, tag) : m \in last'.o.cnt..(last'.o.cnt + k - 1), tag \in ToSet(last'.o.out) }
  IN all \subseteq DOMAIN W'.img /\ Changed(W.img, W'.img) \subseteq all
\* data sets stay; what is not made now stays; what cl_img has made stays
Stay == /\ W'.dir = W.dir
        /\ DOMAIN W.img \subseteq DOMAIN W'.img /\ DOMAIN W.map \subseteq DOMAIN W'.map
        /\ last'.sc \in {"mk_map", "modmap"} => W'.img = W.img
        /\ last'.sc \in {"mk_img", "cl_img"} => W'.map = W.map
        /\ last'.sc = "cl_img" => \A f \in Changed(W.img, W'.img) : \E k \in 1..Len(last'.keys) : \E t \in ToSet(last'.o.out) : f = Out(last'.keys[k], t)
        /\ last'.sc = "cl_img" => \A k \in 1..Len(last'.keys) : (\A t \in ToSet(last'.o.out) : Has(W.img, Out(last'.keys[k], t))) => \A t \in ToSet(last'.o.out) : W'.img[Out(last'.keys[k], t)] = W.img[Out(last'.keys[k], t)]
        /\ (last'.sc = "cl_img" /\ Good(last')) => \A k \in 1..Len(last'.keys) : last'.tab[last'.keys[k]].empty \/ \A t \in ToSet(last'.o.out) : Has(W'.img, Out(last'.keys[k], t))
        /\ last'.sc \in {"mk_map", "modmap"} => Changed(W.map, W'.map) \subseteq {last'.o.map}
        /\ last'.sc = "modmap" => \A m \in DOMAIN W.map : W'.map[m] = W.map[m]
\* a run once more makes nothing else
Again == (last'.sc \in {"mk_img", "cl_img"}) => Do(W', last') = W'
\* images add to a map in any order
Adds == (last'.sc = "mk_map" /\ Good(last')) =>
  LET m == Target(W, last')  m2 == W'.map[last'.o.map] IN
    /\ Do(W, [last' EXCEPT !.files = Reverse(@)]) = W'
    /\ SumSeq(m2.v) - SumSeq(m.v) = 0
    /\ SumSeq(m2.w) - SumSeq(m.w) = 2 * 65536 * Len(last'.files)
\* fluxes add up, indices are those of the last source there, and all else is as the map it came from
Modified == (last'.sc = "modmap" /\ Good(last')) =>
  LET m == W'.map[last'.o.map]  b == last'.o.srcs
      at(p) == { k \in 1..Len(b) : b[k].px = p - 1 }
      was(p) == IF last'.o.from = "" \/ W.map[last'.o.from].w[p] = 0 THEN (IF last'.o.from = "" THEN 0 ELSE (W.map[last'.o.from].v[p] * last'.o.mscale) \div 256)
                ELSE (W.map[last'.o.from].v[p] * last'.o.mscale) \div ((W.map[last'.o.from].w[p] \div 65536) * 256)
  IN \A p \in 1..12 : /\ m.v[p] - was(p) = FoldSet(LAMBDA k, x : x + b[k].flux, 0, at(p))
                      /\ m.s # << >> => m.s[1][p] = (IF at(p) # {} THEN b[Max(at(p))].index ELSE IF last'.o.from = "" THEN 0 ELSE m.s[1][p])
                      /\ (at(p) # {} => m.w[p] = 65536)
Step == AllIn /\ Numbered /\ Stay /\ Again /\ Adds /\ Modified
Steps == [][Step]_vars
=============================================================================
