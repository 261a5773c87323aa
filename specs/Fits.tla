-------------------------------- MODULE Fits --------------------------------
(* Images and maps in FITS files (aipy/img.py, aipy/map.py): to_fits,          *)
(* from_fits, from_fits_to_fits, and the word wrapping of their histories.     *)
(*                                                                             *)
(* W is what the disk holds: for each name an image [kind, shape, v, ax, key,  *)
(* tr, hist] or a map [kind, hist].  Values are in units of 1/64.  ax has, for *)
(* each axis in the order of the file (the fastest first, so the reverse of    *)
(* the array's), its name in capitals, value, step and reference pixel; an     *)
(* axis of a file of another program may lack the name or the place.  key has  *)
(* the keywords, lim the least and the greatest value.  Text is a sequence of character codes.                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC

W0 == [x \in {} |-> 0]
SP == 32
HASH == 35
RECURSIVE Prod(_)
Prod(s) == IF s = << >> THEN 1 ELSE Head(s) * Prod(Tail(s))
Squeeze(shape) == SelectSeq(shape, LAMBDA n : n # 1)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

(* ------------------------------------------------------------------ axes *)
RA == {"RA---SIN", "RA--SIN", "RA", "GLON-CAR"}
DEC == {"DEC--SIN", "DEC", "GLAT-CAR"}
FREQ == {"FREQ", "FREQ-LSR"}
STOKES == {"STOKES"}
Negative(x) == IF x > 0 THEN -x ELSE x
Up(n, d) == (n + d - 1) \div d
\* the axis called n of an array with so many points along it: the middle one is the reference
Axis(n, len, kw) ==
  LET at(v, d) == [name |-> n, val |-> v, step |-> d, pix |-> 64 * Up(len, 2)]
  IN IF n \in RA THEN at(kw.ra, Negative(kw.d_ra))
     ELSE IF n \in DEC THEN at(kw.dec, kw.d_dec)
     ELSE IF n \in FREQ THEN at(kw.freq, kw.d_freq)
     ELSE IF n \in STOKES THEN at(64, 64)
     ELSE at(0, 0)
Axes(names, shape, kw) == [k \in 1..Len(names) |-> Axis(names[k], shape[Len(shape) + 1 - k], kw)]

(* ------------------------------------------------------------------ text *)
Words(s) ==
  LET p == FoldLeft(LAMBDA a, c : IF c = SP THEN IF a.w = << >> THEN a ELSE [ws |-> Append(a.ws, a.w), w |-> << >>]
                                  ELSE [a EXCEPT !.w = Append(@, c)], [ws |-> << >>, w |-> << >>], s)
  IN IF p.w = << >> THEN p.ws ELSE Append(p.ws, p.w)
Chunks(w, n) == [k \in 1..Up(Len(w), n) |-> SubSeq(w, n * (k - 1) + 1, Min({n * k, Len(w)}))]
Blanks(n) == [k \in 1..n |-> SP]
Room(width, ind1, ind2, prefix) == width - 2 - Len(prefix) - Max({ind1, ind2})
\* words are cut to what a line can hold, and go on the line while it stays shorter than the width
Wrap(s, width, ind1, ind2, prefix) ==
  LET room == Room(width, ind1, ind2, prefix)
      ws == FlattenSeq([k \in 1..Len(Words(s)) |-> Chunks(Words(s)[k], room)])
      p == FoldLeft(LAMBDA a, w : IF Len(a.l) + 1 + Len(w) < width THEN [a EXCEPT !.l = @ \o <<SP>> \o w]
                                  ELSE [ls |-> Append(a.ls, a.l), l |-> prefix \o Blanks(ind2) \o w],
                    [ls |-> << >>, l |-> prefix \o Blanks(ind1)], ws)
  IN Append(p.ls, p.l)
\* what a text says, however it is laid out; marks of comments aside
Ink(s) == SelectSeq(s, LAMBDA c : c # SP /\ c # HASH)
Says(lines) == FlattenSeq([k \in 1..Len(lines) |-> Ink(lines[k])])

(* --------------------------------------------------------------- actions *)
Has(w, n) == n \in DOMAIN w
Put(w, n, f) == (n :> f) @@ w
Refused(w, e) ==
  CASE e.op = "write" -> Len(e.axes) # Len(Squeeze(e.shape)) \/ (Has(w, e.name) /\ ~e.clobber)
    [] e.op = "map" -> Has(w, e.name) /\ ~e.clobber
    [] OTHER -> FALSE

Image(e) == [kind |-> "image", shape |-> Squeeze(e.shape), v |-> e.v, ax |-> Axes(e.axes, Squeeze(e.shape), e.kw), key |-> e.key, tr |-> FALSE, hist |-> Says(e.text),
             lim |-> <<Min(ToSet(e.v)), Max(ToSet(e.v))>>]
Map(e) == [kind |-> "map", hist |-> Says(e.text)]
Or(kw, k, v) == IF k \in DOMAIN kw THEN kw[k] ELSE v
\* the header of one image with the data of another; kw overrides
Given(n, kw, a) ==
  IF n \in RA \ {"GLON-CAR"} THEN [a EXCEPT !.val = Or(kw, "ra", @), !.step = Or(kw, "d_ra", @)]
  ELSE IF n \in DEC \ {"GLAT-CAR"} THEN [a EXCEPT !.val = Or(kw, "dec", @), !.step = Or(kw, "d_dec", @)]
  ELSE IF n \in FREQ THEN [a EXCEPT !.val = Or(kw, "freq", @), !.step = Or(kw, "d_freq", @)]
  ELSE a
\* the middle, of an odd number of points either way
Middle(len) == IF len % 2 = 0 THEN {64 * (len \div 2)} ELSE {64 * (len \div 2), 64 * (len \div 2) + 64}
Copied(f, e) == [f EXCEPT !.shape = e.shape, !.v = e.v,
                          !.ax = [k \in 1..Len(f.ax) |-> Given(f.ax[k].name, e.kw, f.ax[k])],
                          !.key = IF "object" \in DOMAIN e.kw THEN [@ EXCEPT !.object = e.kw.object] ELSE @,
                          !.hist = @ \o (IF e.text = << >> THEN << >> ELSE Says(e.text))]
Do(w, e) ==
  IF Refused(w, e) THEN w
  ELSE CASE e.op = "write" -> Put(w, e.name, Image(e))
         [] e.op = "map" -> Put(w, e.name, Map(e))
         [] e.op = "foreign" -> Put(w, e.name, e.file)
         [] e.op = "copy" -> Put(w, e.to, Copied(w[e.name], e))
         [] OTHER -> w

(* ------------------------------------------------------------ what is read *)
Strides(shape) == [k \in 1..Len(shape) |-> Prod(SubSeq(shape, k + 1, Len(shape)))]
Where(shape, n) == LET st == Strides(shape) IN [k \in 1..Len(shape) |-> (n \div st[k]) % shape[k]]
RECURSIVE Flat(_, _)
Flat(shape, ix) == IF shape = << >> THEN 0 ELSE (Flat(Front(shape), Front(ix)) * Last(shape)) + Last(ix)
Transposed(shape, v) == [n \in 1..Len(v) |-> v[Flat(shape, Rev(Where(Rev(shape), n - 1))) + 1]]
Named(f) == SelectSeq(f.ax, LAMBDA a : a.name # "")
\* the value and step of the last axis of a kind, if there is one that has them
Place(f, kinds, v, d) ==
  LET s == SelectSeq(Named(f), LAMBDA a : a.name \in kinds /\ "val" \in DOMAIN a)
  IN IF s = << >> THEN [x \in {} |-> 0] ELSE (v :> Last(s).val) @@ (d :> Last(s).step)
Read(f) == [shape |-> IF f.tr THEN Rev(f.shape) ELSE f.shape, v |-> IF f.tr THEN Transposed(f.shape, f.v) ELSE f.v,
            axes |-> [k \in 1..Len(Named(f)) |-> Named(f)[k].name], key |-> f.key,
            num |-> Place(f, RA \ {"GLON-CAR"}, "ra", "d_ra") @@ Place(f, DEC \ {"GLAT-CAR"}, "dec", "d_dec") @@ Place(f, FREQ, "freq", "d_freq")]

(* -------------------------------------------------------------- verdicts *)
\* the reference pixel of a copied image is somewhere in the middle of the axes of the sky, the first of others
SamePix(a, b, len) == \/ a = b
                      \/ [a EXCEPT !.pix = 0] = [b EXCEPT !.pix = 0] /\ b.pix \in (IF a.name \in (RA \cup DEC) \ {"GLON-CAR", "GLAT-CAR"} THEN Middle(len) ELSE {64})
Same(a, b, copied) ==
  IF ~copied \/ a.kind = "map" THEN a = b
  ELSE /\ [a EXCEPT !.ax = << >>, !.lim = << >>] = [b EXCEPT !.ax = << >>, !.lim = << >>]
       /\ Len(a.ax) = Len(b.ax)
       /\ \A k \in 1..Len(a.ax) : SamePix(a.ax[k], b.ax[k], a.shape[Len(a.shape) + 1 - k])
\* the ink of the note that a copy leaves by itself is not given
Due(w, e) == IF e.op = "read" THEN Read(w[e.name]) ELSE IF e.op = "wrap" THEN Wrap(e.s, e.width, e.ind1, e.ind2, e.prefix) ELSE Do(w, e)
Clause(w, e) ==
  IF e.op = "died" THEN "the call ends"
  ELSE IF Refused(w, e) THEN IF e.ok THEN "it is refused" ELSE IF e.dir # w THEN "a refused call leaves the files" ELSE ""
  ELSE IF ~e.ok THEN "it is accepted"
  ELSE IF e.op = "wrap" THEN IF e.lines # Due(w, e) THEN "the text is wrapped" ELSE ""
  ELSE IF e.op = "read" THEN IF e.r # Due(w, e) THEN "what is read is what the file holds" ELSE ""
  ELSE LET d == Due(w, e)
           n == IF e.op = "copy" THEN e.to ELSE e.name
       IN IF "intact" \in DOMAIN e /\ ~e.intact THEN "the array that is given stays as it is"
          ELSE IF DOMAIN e.dir # DOMAIN d THEN "only the file that is named is made"
          ELSE IF \E x \in DOMAIN d \ {n} : e.dir[x] # w[x] THEN "other files stay"
          ELSE IF ~Same(d[n], e.dir[n], e.op = "copy") THEN "the file holds what is given"
          ELSE ""
\* the state that goes on is the one observed: it may differ in the reference pixel
After(w, e) == IF e.op \in {"wrap", "read"} THEN w ELSE e.dir
=============================================================================
