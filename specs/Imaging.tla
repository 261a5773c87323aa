------------------------------ MODULE Imaging ------------------------------
(* The scripts that make images and maps: mk_img, cl_img, mk_map, modmap.    *)
(*                                                                           *)
(* World: dir, the data sets by name, as sequences of records [t, i, j, p,   *)
(* f]; img, the images by name, [obj, ra, dec, t, n, v]; map, the maps *)
(* by name, [nside, v, w, s], value, weight and index of every pixel.  The   *)
(* values of images are those at some points, in units of 2^-20.             *)
(*                                                                           *)
(* What each sample adds to an image, and an image to a map, are linear; a   *)
(* run is given these parts in tab, and the spec says which of them come     *)
(* together under which names.                                               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Nothing == [x \in {} |-> 0]
W0 == [dir |-> Nothing, img |-> Nothing, map |-> Nothing]
Has(f, n) == n \in DOMAIN f
Plus(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
Zeros(n) == [k \in 1..n |-> 0]
RECURSIVE Total(_, _)
Total(vs, n) == IF vs = << >> THEN Zeros(n) ELSE Plus(Head(vs), Total(Tail(vs), n))

(* ------------------------------------------------------------------ mk_img *)
Digits(n) == ToString(n)
RECURSIVE Pad(_, _)
Pad(s, w) == IF Len(s) >= w THEN s ELSE Pad("0" \o s, w)
Name(o, n, tag) == o.pre \o Pad(Digits(n), o.width) \o "." \o tag \o ".fits"

Wanted(o, r) == r.p \in ToSet(o.pols) /\ (o.ant = "all" \/ ((o.ant = "auto") = (r.i = r.j)))
\* the files that can be read before one that cannot
RECURSIVE There(_, _)
There(w, files) == IF files = << >> \/ ~Has(w.dir, files[1]) THEN << >> ELSE <<files[1]>> \o There(w, Tail(files))
\* the selected records of the files, as pairs of file and record
Rows(w, o, files) ==
  FlattenSeq([n \in 1..Len(files) |->
     LET rs == w.dir[files[n]] IN SelectSeq([k \in 1..Len(rs) |-> <<files[n], k>>], LAMBDA x : Wanted(o, rs[x[2]]))])
Chans(o, r) == IF o.ch = << >> THEN { c : c \in 1..Len(r.f) } ELSE { o.ch[k] + 1 : k \in 1..Len(o.ch) }
Valid(o, r, x) == { c \in Chans(o, r) : r.f[c] = 0 /\ x.len[c] >= o.minuv }
Px == 5
\* one pass over the data for a source: the integrations so far, what they add up to, the images made
Fresh == [n |-> 0, used |-> 0, dim |-> Zeros(Px), dbm |-> Zeros(Px), ints |-> << >>]
Image(a) == [dim |-> a.dim, dbm |-> a.dbm, t |-> a.cur, ints |-> a.ints]
Begin(o, a, t) ==
  IF t = a.cur THEN a
  ELSE IF o.snap > 0 /\ a.n = o.snap
       THEN [Fresh @@ [cur |-> t, out |-> Append(a.out, Image(a))] EXCEPT !.n = 1, !.ints = <<t>>]
       ELSE [a EXCEPT !.cur = t, !.n = @ + 1, !.ints = Append(@, t)]
Take(o, a, r, x) ==
  LET ok == Valid(o, r, x) IN
  IF x.alt < o.altmin \/ ok = {} THEN a
  ELSE LET cs == SetToSeq(ok) IN
       [a EXCEPT !.used = @ + 1,
                 !.dim = Plus(@, Total([k \in 1..Len(cs) |-> x.dim[cs[k]]], Px)),
                 !.dbm = Plus(@, Total([k \in 1..Len(cs) |-> x.dbm[cs[k]]], Px))]
Pass(w, o, files, src) ==
  LET rows == Rows(w, o, files)
  IN FoldLeft(LAMBDA a, y : LET r == w.dir[y[1]][y[2]] IN Take(o, Begin(o, a, r.t), r, src.recs[y[1]][y[2]]),
              [cur |-> -1, out |-> << >>] @@ Fresh, rows)
\* at the end, what is left makes an image if there is anything
Images(w, o, files, src, whole) ==
  LET a == Pass(w, o, files, src) IN IF whole /\ a.used > 0 THEN Append(a.out, Image(a)) ELSE a.out

Place(src, t) == CHOOSE p \in ToSet(src.pos) : p.t = t
Head1(w, o, src, im) == [obj |-> src.name, ra |-> Place(src, im.t).ra, dec |-> Place(src, im.t).dec, t |-> im.t, n |-> o.size]
\* all images of all sources, in order, with their sources; a missing file ends it
AllImages(w, e) ==
  LET ok == There(w, e.files)  whole == Len(ok) = Len(e.files)
      of(k) == LET s == e.tab[k]  ims == Images(w, e.o, ok, s, whole) IN [m \in 1..Len(ims) |-> <<s, ims[m]>>]
      last == IF whole THEN Len(e.tab) ELSE Min({e.o.skip + 1, Len(e.tab)})
  IN IF ok = << >> THEN << >> ELSE FlattenSeq([k \in 1..(last - e.o.skip) |-> of(k + e.o.skip)])
Tags(o) == ToSet(o.out)
MkImg(w, e) ==
  LET ims == AllImages(w, e)
      one(m, tag) == Head1(w, e.o, ims[m][1], ims[m][2]) @@ [v |-> CASE tag = "dim" -> ims[m][2].dim [] tag = "dbm" -> ims[m][2].dbm [] OTHER -> << >>]
      new == { <<m, tag>> : m \in 1..Len(ims), tag \in Tags(e.o) }
  IN [w EXCEPT !.img = [n \in { Name(e.o, e.o.cnt + x[1] - 1, x[2]) : x \in new } |->
                          LET x == CHOOSE x \in new : Name(e.o, e.o.cnt + x[1] - 1, x[2]) = n IN one(x[1], x[2])] @@ w.img]

(* ------------------------------------------------------------------ cl_img *)
\* e.tab has, for each pair, what the deconvolver makes of it
Dim(k) == k \o ".dim.fits"
Dbm(k) == k \o ".dbm.fits"
Out(k, tag) == k \o "." \o tag \o ".fits"
\* smoothed components are taken as seen; smoothed components and the residual make the restored image
Seen(e, n) == IF Has(e.img, n) THEN e.img[n].v ELSE Zeros(Px)
OneClean(w, e, k) ==
  IF \A tag \in Tags(e.o) : Has(w.img, Out(k, tag)) THEN w
  ELSE LET x == e.tab[k] IN
       IF x.empty THEN w
       ELSE LET v(tag) == CASE tag = "cim" -> IF e.o.deconv = "none" THEN Zeros(Px) ELSE x.cim
                            [] tag = "rim" -> IF e.o.deconv = "none" /\ e.o.plain THEN w.img[Dim(k)].v ELSE x.rim
                            [] tag = "cimc" -> Seen(e, Out(k, "cimc"))
                            [] OTHER -> IF e.o.deconv = "none" THEN x.bim
                                        ELSE IF "cimc" \in Tags(e.o) THEN Plus(x.bim, Seen(e, Out(k, "cimc"))) ELSE << >>
            IN [w EXCEPT !.img = [n \in { Out(k, tag) : tag \in Tags(e.o) } |->
                                    [w.img[Dbm(k)] EXCEPT !.v = v(CHOOSE tag \in Tags(e.o) : Out(k, tag) = n)]] @@ w.img]
Keys(e) == e.keys
\* in the order of the names; e.keys is sorted and without repetition
Ready(w, e) == LET bad == { n \in 1..Len(Keys(e)) : ~Has(w.img, Dim(Keys(e)[n])) \/ ~Has(w.img, Dbm(Keys(e)[n])) }
               IN IF bad = {} THEN Keys(e) ELSE SubSeq(Keys(e), 1, Min(bad) - 1)
ClImg(w, e) == FoldLeft(LAMBDA x, k : OneClean(x, e, k), w, Ready(w, e))

(* ------------------------------------------------------------------ mk_map *)
Blank(nside) == [nside |-> nside, v |-> Zeros(12 * nside * nside), w |-> Zeros(12 * nside * nside), s |-> << >>]
Target(w, e) == IF Has(w.map, e.o.map) THEN w.map[e.o.map] ELSE Blank(e.o.nside)
MkMap(w, e) ==
  LET m == Target(w, e)
  IN [w EXCEPT !.map = (e.o.map :> FoldLeft(LAMBDA a, f : [a EXCEPT !.v = Plus(@, e.tab[f].v), !.w = Plus(@, e.tab[f].w)], m, e.files)) @@ @]

(* ------------------------------------------------------------------ modmap *)
\* e.o.srcs: [px, flux, index] of each source; mscale in 1/256.  The weights of a map that is read are whole.
Scaled(x, m) == (x \div 256) * m + ((x % 256) * m) \div 256
Flat(m, o) ==
  LET n(p) == IF m.w[p] > 0 THEN m.w[p] \div 65536 ELSE 1
  IN [m EXCEPT !.v = [p \in 1..Len(m.v) |-> Scaled(m.v[p] \div n(p), o.mscale)], !.w = [p \in 1..Len(m.w) |-> IF m.w[p] > 0 THEN 65536 ELSE 0],
               !.s = [k \in 1..Len(m.s) |-> [p \in 1..Len(m.v) |-> m.s[k][p] \div n(p)]]]
New(o) == [Blank(o.nside) EXCEPT !.s = [k \in 1..o.nind |-> Zeros(12 * o.nside * o.nside)]]
\* the flux adds to what is there, the index takes its place
AddSrc(m, x) == [m EXCEPT !.v[x.px + 1] = @ + x.flux, !.w[x.px + 1] = 65536, !.s = IF @ = << >> THEN @ ELSE <<[@[1] EXCEPT ![x.px + 1] = x.index]>>]
ModMap(w, e) == [w EXCEPT !.map = (e.o.map :> FoldLeft(AddSrc, IF e.o.from = "" THEN New(e.o) ELSE Flat(w.map[e.o.from], e.o), e.o.srcs)) @@ @]

(* -------------------------------------------------------------- the whole *)
Refused(w, e) ==
  CASE e.op = "make" -> FALSE
    [] e.sc = "mk_img" -> e.o.skip < Len(e.tab) /\ Len(There(w, e.files)) < Len(e.files)
    [] e.sc = "cl_img" -> Len(Ready(w, e)) < Len(Keys(e))
    [] e.sc = "mk_map" -> \E n \in 1..Len(e.files) : ~Has(w.img, e.files[n]) \/ ~e.tab[e.files[n]].j2000
    [] e.sc = "modmap" -> Has(w.map, e.o.map) \/ (e.o.from # "" /\ ~Has(w.map, e.o.from))
    [] OTHER -> FALSE
Do(w, e) ==
  CASE e.op = "make" -> [dir |-> e.dir @@ w.dir, img |-> e.img @@ w.img, map |-> e.map @@ w.map]
    [] e.sc = "mk_img" -> MkImg(w, e)
    [] e.sc = "cl_img" -> ClImg(w, e)
    [] e.sc \in {"mk_map", "modmap"} -> IF Refused(w, e) THEN w ELSE IF e.sc = "mk_map" THEN MkMap(w, e) ELSE ModMap(w, e)

(* -------------------------------------------------------------- verdicts *)
Close(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
\* around the circle, in units of 1/256 degree
Turn == 92160
\* apparent places are up to 40 seconds off, more in right ascension near a pole
Near(a, b, dec) == LET d == Abs(a - b) IN Min({d, Turn - d}) <= (IF Abs(dec) > 80 * 256 THEN 60 ELSE 6)
ImgOK(a, b) == /\ a.obj = b.obj /\ a.t = b.t /\ a.n = b.n /\ Near(a.ra, b.ra, a.dec) /\ Abs(a.dec - b.dec) <= 3
               /\ (a.v # << >> => Close(a.v, b.v, 512))
MapOK(a, b) == a.nside = b.nside /\ Close(a.v, b.v, 40) /\ Close(a.w, b.w, 40) /\ Len(a.s) = Len(b.s) /\ \A k \in 1..Len(a.s) : Close(a.s[k], b.s[k], 40)
Due(w, e) == Do(w, e)
Clause(w, e) ==
  IF e.op = "died" THEN "the call ends"
  ELSE LET d == Do(w, e) IN
       IF e.op = "make" THEN ""
       ELSE IF Refused(w, e) /\ e.rc = 0 THEN "it is refused"
       ELSE IF ~Refused(w, e) /\ e.rc # 0 THEN "it ends well"
       ELSE IF DOMAIN e.img # DOMAIN d.img THEN "the images that are made"
       ELSE IF DOMAIN e.map # DOMAIN d.map THEN "the maps that are made"
       ELSE IF \E n \in DOMAIN w.img : d.img[n] = w.img[n] /\ e.img[n] # w.img[n] THEN "other images stay"
       ELSE IF \E n \in DOMAIN w.map : d.map[n] = w.map[n] /\ e.map[n] # w.map[n] THEN "other maps stay"
       ELSE IF \E n \in DOMAIN d.img : ~ImgOK(d.img[n], e.img[n]) THEN "the image holds the data"
       ELSE IF \E n \in DOMAIN d.map : ~MapOK(d.map[n], e.map[n]) THEN "the map holds the images"
       ELSE ""
After(w, e) == [dir |-> Do(w, e).dir, img |-> e.img, map |-> e.map]
=============================================================================
