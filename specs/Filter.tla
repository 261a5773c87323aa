------------------------------ MODULE Filter ------------------------------
(* filter_src.py: data sets filtered by delay and delay rate.               *)
(*                                                                          *)
(* The data of a baseline and polarization are phased to the source (if one *)
(* is given), padded in time by their own mirror image at either end, taken *)
(* apart into delays (of the channels of each time) and delay rates (of the *)
(* times of each channel), of which those are taken that are less than the  *)
(* asked width, put together again, and phased back: what was extracted.    *)
(* The rest is what remains.  Where samples are flagged in part, the        *)
(* transforms are deconvolved and the outcome is known by laws only.        *)
(*                                                                          *)
(* Data are in units of 1/64, factors of 1/8192, cosines of 1/16384.        *)
EXTENDS Scripts
Quarter == <<16384, 16384, 16382, 16380, 16377, 16373, 16368, 16362, 16355, 16347, 16338, 16329, 16318, 16307, 16294, 16281, 16267, 16252, 16236, 16219, 16201,
     16182, 16163, 16142, 16121, 16098, 16075, 16051, 16026, 16000, 15973, 15946, 15917, 15887, 15857, 15826, 15794, 15761, 15727, 15692, 15656, 15620,
     15582, 15544, 15505, 15465, 15424, 15382, 15339, 15296, 15251, 15206, 15160, 15113, 15066, 15017, 14968, 14917, 14866, 14814, 14761, 14708, 14653,
     14598, 14542, 14485, 14428, 14369, 14310, 14250, 14189, 14127, 14065, 14002, 13938, 13873, 13807, 13741, 13674, 13606, 13537, 13468, 13398, 13327,
     13255, 13183, 13109, 13036, 12961, 12886, 12810, 12733, 12655, 12577, 12498, 12419, 12338, 12257, 12176, 12093, 12010, 11927, 11842, 11757, 11672,
     11585, 11498, 11411, 11322, 11233, 11144, 11054, 10963, 10872, 10780, 10687, 10594, 10500, 10406, 10311, 10215, 10119, 10022, 9925, 9827, 9729,
     9630, 9531, 9431, 9330, 9229, 9128, 9026, 8923, 8820, 8717, 8613, 8508, 8403, 8298, 8192, 8086, 7979, 7872, 7764, 7656, 7547,
     7438, 7329, 7219, 7109, 6998, 6887, 6776, 6664, 6552, 6439, 6326, 6213, 6100, 5986, 5872, 5757, 5642, 5527, 5411, 5295, 5179,
     5063, 4946, 4829, 4712, 4595, 4477, 4359, 4240, 4122, 4003, 3884, 3765, 3646, 3526, 3406, 3286, 3166, 3046, 2925, 2805, 2684,
     2563, 2442, 2321, 2199, 2078, 1956, 1834, 1713, 1591, 1469, 1347, 1224, 1102, 980, 857, 735, 613, 490, 368, 245, 123,
     0>>
Fine == 840
Cos(x) == LET y == x % Fine IN IF y <= 210 THEN Quarter[y + 1] ELSE IF y <= 420 THEN -Quarter[421 - y] ELSE IF y <= 630 THEN -Quarter[y - 419] ELSE Quarter[841 - y]
Sin(x) == Cos(x - 210)
Round(x, q) == (x + (q \div 2)) \div q

\* the delays and delay rates that are taken, of n
Delays(n, w) == { q \in 0..n-1 : q < w \/ q >= n - w }
Rates(n, w) == IF w = -1 THEN 0..n-1 ELSE { q \in 0..n-1 : q < w \/ q > n - w }
RECURSIVE Waves(_, _, _)
Waves(qs, m, n) == IF qs = {} THEN Zero ELSE LET q == CHOOSE q \in qs : TRUE  x == (q * m * (Fine \div n)) % Fine IN Add(<<Cos(x), Sin(x)>>, Waves(qs \ {q}, m, n))
\* the part of these waves in a place m further on
Kernel(qs, n) == [m \in 0..n-1 |-> LET s == Waves(qs, m, n) IN <<Round(s[1], n), Round(s[2], n)>>]
Part(k, z) == <<Round((k[1] * z[1]) - (k[2] * z[2]), 16384), Round((k[1] * z[2]) + (k[2] * z[1]), 16384)>>
\* s : 1..n, circular; a kernel of all waves leaves it as it is
RECURSIVE Sum(_, _, _, _, _)
Sum(ker, s, n, c, x) == IF x > n THEN Zero ELSE Add(Part(ker[(x - c) % n], s[x]), Sum(ker, s, n, c, x + 1))
Pass(qs, s) == LET n == Len(s) IN IF qs = 0..n-1 THEN s ELSE LET ker == TLCEval(Kernel(qs, n)) IN [c \in 1..n |-> Sum(ker, s, n, c, 1)]

\* a sequence with a tenth of itself (but some) mirrored at each end
PadLen(n) == (n + 9) \div 10
Padded(s) == LET p == PadLen(Len(s)) IN Reverse(SubSeq(s, 1, p)) \o s \o Reverse(SubSeq(s, Len(s) - p + 1, Len(s)))
\* rows: for each time the channels
Smooth(rows, dw, drw) ==
  LET fine == TLCEval([t \in 1..Len(rows) |-> LET s == rows[t] IN Pass(Delays(Len(s), dw), s)])
      nt == Len(rows)  p == PadLen(nt)
  IN IF drw = -1 \/ nt = 0 THEN fine
     ELSE LET n == nt + 2 * p
              cols == TLCEval([c \in 1..Len(rows[1]) |-> LET col == [t \in 1..nt |-> fine[t][c]] IN Pass(Rates(n, drw), Padded(col))])
          IN [t \in 1..nt |-> [c \in 1..Len(rows[1]) |-> cols[c][p + t]]]

-----------------------------------------------------------------------------
By8(d, fac) == [c \in 1..Len(d) |-> <<Round((d[c][1] * fac[c][1]) - (d[c][2] * fac[c][2]), 8192), Round((d[c][1] * fac[c][2]) + (d[c][2] * fac[c][1]), 8192)>>]
Blanks(r) == [c \in Chans(r) |-> IF r.f[c] = 1 THEN Zero ELSE Times(r.d[c], 64)]
\* a record is filtered if it is of two antennae and of an asked polarization
Asked(o, r) == r.i # r.j /\ r.p \in ToSet(o.pols)
Same(a, b) == a.i = b.i /\ a.j = b.j /\ a.p = b.p
Whole(r) == \A c \in Chans(r) : r.f[c] = 0
None(r) == \A c \in Chans(r) : r.f[c] = 1
Empty(r) == \A c \in Chans(r) : r.d[c] = Zero
Down(o, x) == o.src # "" /\ x.down
\* exactly known: nothing is flagged in part; with delay rates, nothing is missing (or zero) at all, or all is
Exact(ds, e) == \A k \in 1..Len(ds.recs) : LET r == ds.recs[k] IN Asked(e.o, r) =>
                  IF e.o.drw = -1 THEN Whole(r) \/ None(r) ELSE Whole(r) /\ ~Down(e.o, Row(e.tab, r)) /\ (Empty(r) => \A n \in 1..Len(ds.recs) : Same(r, ds.recs[n]) => Empty(ds.recs[n]))
Phased(e, r) == LET x == Row(e.tab, r)  b == Blanks(r)
                    c == IF e.o.pb THEN By8(b, x.ipb) ELSE b
                IN IF e.o.src = "" THEN c ELSE By8(c, x.to)
Back(e, r, d) == LET x == Row(e.tab, r)
                     c == IF e.o.src = "" THEN d ELSE By8(d, x.un)
                 IN IF e.o.pb THEN By8(c, x.pb) ELSE c
\* the places of the records of the same baseline and polarization
Places(ds, r) == SelectSeq([k \in 1..Len(ds.recs) |-> k], LAMBDA k : Same(ds.recs[k], r))
Keys(ds, o) == { <<ds.recs[k].i, ds.recs[k].j, ds.recs[k].p>> : k \in { k \in 1..Len(ds.recs) : Asked(o, ds.recs[k]) } }
\* what is extracted of each
Extracted(ds, e) ==
  LET one(key) == LET ps == Places(ds, [i |-> key[1], j |-> key[2], p |-> key[3]])
                      rows == TLCEval([n \in 1..Len(ps) |-> Phased(e, ds.recs[ps[n]])])
                  IN [ps |-> ps, out |-> TLCEval(Smooth(rows, e.o.dw, e.o.drw))]
      all == TLCEval([key \in Keys(ds, e.o) |-> one(key)])
  IN [k \in 1..Len(ds.recs) |-> LET r == ds.recs[k] IN
        IF ~Asked(e.o, r) THEN [c \in Chans(r) |-> Zero]
        ELSE LET x == all[<<r.i, r.j, r.p>>] IN Back(e, r, x.out[CHOOSE n \in 1..Len(x.ps) : x.ps[n] = k])]
FilteredBy(ds, e) ==
  LET x == TLCEval(Extracted(ds, e)) IN
  [ds EXCEPT !.recs = [k \in 1..Len(ds.recs) |-> LET r == Up(ds.recs[k]) IN
     IF ~Asked(e.o, r) THEN r
     ELSE [r EXCEPT !.d = [c \in Chans(r) |-> IF e.o.extract THEN x[k][c] ELSE Sub(r.d[c], x[k][c])]]]]

-----------------------------------------------------------------------------
(* W.made: of which data set, and how, each one was made                      *)
Into(e, name) == IF e.o.src = "" THEN name \o "f" ELSE IF e.o.extract THEN name \o ".e_" \o e.o.src ELSE name \o ".f_" \o e.o.src
F0 == [dir |-> << >>, made |-> << >>]
\* the files that are made, in turn, before one is missing: [todo: names, err]
RECURSIVE Turn(_, _, _, _)
Turn(W, e, k, done) ==
  IF k > Len(e.files) THEN [todo |-> done, err |-> FALSE]
  ELSE LET name == e.files[k] IN
       IF k = 1 /\ name \notin DOMAIN W.dir THEN [todo |-> done, err |-> TRUE]       \* the first tells the frequencies
       ELSE IF Into(e, name) \in DOMAIN W.dir \/ (\E n \in 1..Len(done) : done[n] = name) THEN Turn(W, e, k + 1, done)
       ELSE IF name \notin DOMAIN W.dir THEN [todo |-> done, err |-> TRUE]
       ELSE Turn(W, e, k + 1, Append(done, name))
Tol == 6
Head1(r) == [r EXCEPT !.d = << >>]
CloseBut(a, b, tol) == \A c \in Chans(a) : a.f[c] = 1 \/ Near(a.d[c], b.d[c], tol)
Every(a, b, P(_, _)) == \A k \in 1..Len(a) : P(a[k], b[k])
\* how two outputs relate: of inputs that are the same but for what is flagged
SameBut(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Head1(a[k]) = Head1(b[k]) /\ \A c \in Chans(a[k]) : a[k].f[c] = 1 \/ a[k].d[c] = b[k].d[c]
Options(o) == [o EXCEPT !.extract = TRUE]
\* what is there is of a source, as bright in all channels (and, with delay rates, at all times of a baseline and polarization)
Flat(e, ds) == \A k \in 1..Len(ds.recs) : LET r == ds.recs[k] IN Asked(e.o, r) =>
   /\ ~Down(e.o, Row(e.tab, r)) /\ (e.o.drw = -1 => ~None(r))
   /\ LET d == Phased(e, r)
          ok(x) == { c \in Chans(x) : x.f[c] = 0 }
          same(x) == LET y == Phased(e, x) IN \A c \in ok(r), q \in ok(x) : Near(d[c], y[q], 100)
      IN IF e.o.drw = -1 THEN same(r)
         ELSE /\ (Whole(r) \/ None(r)) /\ \A n \in 1..Len(ds.recs) : Same(r, ds.recs[n]) => same(ds.recs[n])
              /\ LET ps == Places(ds, r) IN 3 * Cardinality({ n \in 1..Len(ps) : Whole(ds.recs[ps[n]]) }) >= 2 * Len(ps)
File2(W, e, n) ==
  LET ds == W.dir[n]  out == Into(e, n)  b == e.dir[out]  a == [ds EXCEPT !.recs = [k \in 1..Len(ds.recs) |-> Up(ds.recs[k])]]
      known == { m \in DOMAIN W.made : Options(W.made[m].o) = Options(e.o) /\ SameBut(W.dir[W.made[m].of].recs, ds.recs) }
      most == LET s == { Size(ds.recs[k].d[c]) : k \in 1..Len(ds.recs), c \in 1..ds.nchan } IN CHOOSE x \in s : \A y \in s : y <= x
  IN
  IF "bad" \in DOMAIN b THEN "unreadable"
  ELSE IF Len(a.recs) # Len(b.recs) THEN "number of records"
  ELSE IF a.nchan # b.nchan \/ a.nchan # b.nschan \/ a.sdf # b.sdf \/ a.sfreq # b.sfreq THEN "frequency axis"
  ELSE IF ~IsPrefix(a.hist, b.hist) \/ Len(a.hist) = Len(b.hist) THEN "history"
  ELSE IF ~Every(a.recs, b.recs, LAMBDA x, y : [x EXCEPT !.d = << >>, !.f = << >>] = [y EXCEPT !.d = << >>, !.f = << >>]) THEN "what the records are of"
  ELSE IF ~Every(a.recs, b.recs, LAMBDA x, y : x.f = y.f) THEN "flags"
  ELSE IF ~Every(a.recs, b.recs, LAMBDA x, y : Asked(e.o, x) \/ CloseBut(x, y, 1)) THEN "data that are not filtered"
  ELSE IF \E k \in 1..Len(b.recs) : \E c \in Chans(b.recs[k]) : b.recs[k].f[c] = 0 /\ (Abs(b.recs[k].d[c][1]) > 100000000 \/ Abs(b.recs[k].d[c][2]) > 100000000) THEN "data beyond all bounds"
  ELSE IF ~Every(a.recs, b.recs, LAMBDA x, y : (Asked(e.o, x) /\ Down(e.o, Row(e.tab, x))) => CloseBut(IF e.o.extract THEN [x EXCEPT !.d = [c \in Chans(x) |-> Zero]] ELSE x, y, 1)) THEN "data while the source is down"
  ELSE IF Exact(ds, e) THEN IF Every(FilteredBy(ds, e).recs, b.recs, LAMBDA x, y : CloseBut(x, y, IF e.o.pb THEN 8 * Tol ELSE Tol)) THEN "" ELSE "data"
  ELSE IF \E m \in known : ~Every(a.recs, [k \in 1..Len(a.recs) |-> k], LAMBDA x, k : ~Asked(e.o, x) \/
            LET y == b.recs[k]  z == e.dir[m].recs[k] IN
            IF W.made[m].o.extract = e.o.extract THEN CloseBut([x EXCEPT !.d = y.d], z, 2)
            ELSE CloseBut(x, [y EXCEPT !.d = [c \in Chans(y) |-> IF x.f[c] = 1 THEN Zero ELSE Add(y.d[c], z.d[c])]], 2)) THEN "what is extracted and what remains"
  ELSE IF e.o.dw > 0 /\ Flat(e, ds) /\ ~Every(a.recs, b.recs, LAMBDA x, y : ~Asked(e.o, x) \/
            CloseBut([x EXCEPT !.d = [c \in Chans(x) |-> IF e.o.extract THEN x.d[c] ELSE Zero]], y, 8 + (most * 64) \div 20)) THEN "a source is extracted"
  ELSE ""
FJudge(W, e) ==
  LET t == Turn(W, e, 1, << >>)  new == { Into(e, t.todo[k]) : k \in 1..Len(t.todo) } IN
  IF t.err # (e.rc # 0) THEN IF t.err THEN "is refused" ELSE "runs"
  ELSE IF DOMAIN e.dir # DOMAIN W.dir \cup new THEN "the data sets there are"
  ELSE IF \E n \in DOMAIN W.dir : e.dir[n] # W.dir[n] THEN "an existing data set changed"
  ELSE LET bad == { k \in 1..Len(t.todo) : File2(W, e, t.todo[k]) # "" } IN
       IF bad = {} THEN "" ELSE File2(W, e, t.todo[CHOOSE k \in bad : TRUE])
FClause(W, e) == IF e.op = "died" THEN "ends" ELSE IF e.op = "make" THEN "" ELSE FJudge(W, e)
FDo(W, e) ==
  IF e.op = "make" THEN [F0 EXCEPT !.dir = e.dir]
  ELSE LET t == Turn(W, e, 1, << >>) IN
       [dir |-> e.dir, made |-> [m \in { Into(e, t.todo[k]) : k \in 1..Len(t.todo) } |->
           [o |-> e.o, of |-> t.todo[CHOOSE k \in 1..Len(t.todo) : Into(e, t.todo[k]) = m]]] @@ W.made]
FDue(W, e) == LET t == Turn(W, e, 1, << >>) IN
  [err |-> t.err, new |-> [k \in 1..Len(t.todo) |-> IF Exact(W.dir[t.todo[k]], e) THEN FilteredBy(W.dir[t.todo[k]], e).recs ELSE << >>]]
=============================================================================
