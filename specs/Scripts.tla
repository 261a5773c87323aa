------------------------------ MODULE Scripts ------------------------------
(* The command line scripts that make data sets from data sets.              *)
(*                                                                           *)
(* World: dir, the data sets of a directory by name, and npz, the crosstalk  *)
(* models stored there, by time.  A data set is [recs, nchan, sdf, sfreq,    *)
(* hist]; a record is [t, i, j, p, u, g, d, f]: time, antennae, polarization *)
(* (its code), coordinates, another variable, data (complex integers), flags.*)
(* Sfreq and sdf are in units that make them integers.                       *)
(*                                                                           *)
(* Running a script on files does the same for one file after the other.  It *)
(* makes the data set named by the file and the suffix of the script, unless *)
(* there is something of this name, and changes nothing else.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Zero == <<0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Times(a, n) == <<a[1] * n, a[2] * n>>
Over(a, n) == <<a[1] \div n, a[2] \div n>>         \* only of multiples
RECURSIVE SumOver(_, _)
SumOver(d, s) == IF s = {} THEN Zero ELSE LET x == CHOOSE x \in s : TRUE IN Add(d[x], SumOver(d, s \ {x}))
Chans(r) == 1..Len(r.d)
Blank(r) == [r EXCEPT !.d = [c \in Chans(r) |-> IF r.f[c] = 1 THEN Zero ELSE r.d[c]]]
Flag(r, m) == Blank([r EXCEPT !.f = m])
Recs(ds, F(_)) == [ds EXCEPT !.recs = [k \in 1..Len(ds.recs) |-> F(ds.recs[k])]]
Keep(ds, P(_)) == [ds EXCEPT !.recs = SelectSeq(ds.recs, P)]

(* Fewer channels: the mean of what is not flagged of each group.            *)
Combine(ds, o, tie) ==
  LET k == ds.nchan \div o.n
      One(r) == LET good(c) == { x \in (((c - 1) * k) + 1)..(c * k) : r.f[x] = 0 }
                    n(c) == Cardinality(good(c))
                    bad(c) == IF o.careful THEN n(c) < k ELSE IF o.dont THEN n(c) < 1
                              ELSE IF 2 * n(c) = k THEN tie ELSE 2 * n(c) < k
                IN Blank([r EXCEPT !.d = [c \in 1..o.n |-> IF n(c) = 0 THEN Zero ELSE Over(SumOver(r.d, good(c)), n(c))],
                                   !.f = [c \in 1..o.n |-> IF bad(c) THEN 1 ELSE 0]])
  IN IF k = 1 THEN ds ELSE [Recs(ds, One) EXCEPT !.nchan = o.n, !.sdf = k * ds.sdf]

(* Crosstalk: per baseline and polarization the mean over time.              *)
Key(r) == <<r.i, r.j, r.p>>
Cross(ds) == SelectSeq(ds.recs, LAMBDA r : r.i # r.j)
Mean(rs, c) == LET ok == { k \in 1..Len(rs) : rs[k].f[c] = 0 }
               IN IF ok = {} THEN Zero ELSE Over(SumOver([k \in 1..Len(rs) |-> rs[k].d[c]], ok), Cardinality(ok))
Talk(ds) == LET x == Cross(ds) IN
  [k \in { Key(x[n]) : n \in 1..Len(x) } |-> LET rs == SelectSeq(x, LAMBDA r : Key(r) = k)
                                             IN [c \in 1..ds.nchan |-> Mean(rs, c)]]
Less(ds, xt) == Recs(ds, LAMBDA r : IF Key(r) \in DOMAIN xt THEN [r EXCEPT !.d = [c \in Chans(r) |-> Sub(r.d[c], xt[Key(r)][c])]] ELSE r)
Time(ds) == Cross(ds)[1].t

(* Static shape and gain: xs are the models of some times, the gain of each  *)
(* the size of its first channel (all channels of the given range are alike).*)
Size(v) == Abs(v[1]) + Abs(v[2])
Reprocess(xs, c0) ==
  [n \in 1..Len(xs) |-> [k \in DOMAIN xs[n] |->
     LET g(m) == Size(xs[m][k][c0 + 1])
         at(c) == { m \in 1..Len(xs) : xs[m][k][c] # Zero }
     IN [c \in 1..Len(xs[n][k]) |-> IF at(c) = {} THEN Zero
           ELSE Over(SumOver([m \in 1..Len(xs) |-> Over(Times(xs[m][k][c], g(n) * 4), g(m))], at(c)), 4 * Cardinality(at(c)))]]]

(* Flagging by statistics: more than q[1]/q[2] deviations from the median.    *)
(* Everything is of doubled values and squares, to stay with integers.       *)
Sorted(s) == SortSeq(s, <)
Median2(s) == LET q == Sorted(s)  n == Len(s) IN IF n % 2 = 1 THEN 2 * q[(n + 1) \div 2] ELSE q[n \div 2] + q[(n \div 2) + 1]
Sq(v) == (v[1] * v[1]) + (v[2] * v[2])
More(x, s2, q) == 2 * x * q[2] * q[2] > q[1] * q[1] * s2      \* x above q times half of s2
Bend(a, b, c) == Sq(Sub(Times(b, 2), Add(a, c)))
Out(rs, o) ==                                   \* for the records of one baseline and polarization, in order of time
  LET n == Len(rs)  nc == Len(rs[1].d)
      df == [t \in 1..n |-> [c \in 2..nc-1 |-> Bend(rs[t].d[c-1], rs[t].d[c], rs[t].d[c+1])]]
      dfs == [t \in 1..n |-> Median2([c \in 1..nc-2 |-> df[t][c+1]])]
      dt == [t \in 2..n-1 |-> [c \in 1..nc |-> Bend(rs[t-1].d[c], rs[t].d[c], rs[t+1].d[c])]]
      dts == [c \in 1..nc |-> Median2([t \in 1..n-2 |-> dt[t+1][c]])]
      ad == [k \in 1..n*nc |-> Size(rs[((k - 1) \div nc) + 1].d[((k - 1) % nc) + 1])]
      med == Median2(ad)
      dev == Median2([k \in 1..n*nc |-> ((2 * ad[k]) - med) * ((2 * ad[k]) - med)])
      big(t, c) == LET a == (2 * Size(rs[t].d[c])) - med IN a > 0 /\ More(a * a, dev, o.q)
  IN [t \in 1..n |-> [c \in 1..nc |->
       IF \/ rs[t].f[c] = 1
          \/ o.df /\ (c = 1 \/ c = nc \/ (c > 1 /\ c < nc /\ More(df[t][c], dfs[t], o.q)))
          \/ o.dt /\ (t = 1 \/ t = n \/ (t > 1 /\ t < n /\ More(dt[t][c], dts[c], o.q)))
          \/ ~o.df /\ ~o.dt /\ big(t, c) THEN 1 ELSE 0]]
Manual(r, ch) == [r EXCEPT !.f = [c \in Chans(r) |-> IF c - 1 \in ToSet(ch) THEN 1 ELSE r.f[c]]]
\* flags by place in the data set: of every record that was looked at
Simple(ds, o) ==
  LET sel == SelectSeq([k \in 1..Len(ds.recs) |-> k], LAMBDA k : o.ant = "all" \/ (o.ant = "auto" /\ ds.recs[k].i = ds.recs[k].j)
                                                                 \/ (o.ant = "cross" /\ ds.recs[k].i # ds.recs[k].j))
      keys == { Key(ds.recs[k]) : k \in ToSet(sel) }
      of(x) == SelectSeq(sel, LAMBDA k : Key(ds.recs[k]) = x)
      m == [x \in keys |-> TLCEval(Out([n \in 1..Len(of(x)) |-> Manual(ds.recs[of(x)[n]], o.ch)], o))]
      pos(k) == CHOOSE n \in 1..Len(of(Key(ds.recs[k]))) : of(Key(ds.recs[k]))[n] = k
  IN [k \in ToSet(sel) |-> m[Key(ds.recs[k])][pos(k)]]
\* the same flags for all of one time, where enough agree
Shared(ds, m, thr) ==
  [t \in { ds.recs[k].t : k \in DOMAIN m } |->
     [c \in 1..ds.nchan |-> IF Cardinality({ k \in DOMAIN m : ds.recs[k].t = t /\ m[k][c] = 1 }) >= thr THEN 1 ELSE 0]]
Ones(ds) == [c \in 1..ds.nchan |-> 1]
Xrfi(ds, o) ==
  LET m == [k \in 1..Len(ds.recs) |-> LET r == ds.recs[k] IN
              [c \in Chans(r) |-> IF (r.f[c] = 1 /\ ~o.reflag) \/ r.d[c] = Zero \/ c - 1 \in ToSet(o.ch) THEN 1 ELSE 0]]
      s == Shared(ds, m, 1)
  IN [ds EXCEPT !.recs = [k \in 1..Len(ds.recs) |-> Flag(ds.recs[k], IF o.share THEN s[ds.recs[k].t] ELSE m[k])]]

(* With a calibration.  What the array gives is in tables, by time,          *)
(* polarization and antennae: complex factors in units of 1/1024.            *)
Mul(a, b) == <<((a[1] * b[1]) - (a[2] * b[2])) \div 1024, ((a[1] * b[2]) + (a[2] * b[1])) \div 1024>>
By(r, fac) == [r EXCEPT !.d = [c \in Chans(r) |-> Mul(r.d[c], fac[c])]]
Row(tab, r) == LET k == CHOOSE k \in 1..Len(tab) : tab[k].k = <<r.t, r.p, r.i, r.j>> IN tab[k]
RECURSIVE ByAll(_, _)
ByAll(r, fs) == IF fs = << >> THEN r ELSE ByAll(By(r, Head(fs)), Tail(fs))
Up(r) == [r EXCEPT !.d = [c \in Chans(r) |-> Times(r.d[c], 64)]]       \* in units of 1/64
Calibrated(e, r0) ==
  LET r == Up(r0)  o == e.o  x == Row(e.tab, r0) IN
  CASE e.sc = "apply_cal" -> ByAll(r, (IF o.gain THEN <<x.ipb>> ELSE << >>) \o (IF o.phs THEN <<x.zen>> ELSE << >>))
    [] e.sc = "phs2src" -> IF r.i = r.j THEN r
         ELSE IF o.set THEN [r EXCEPT !.d = [c \in Chans(r) |-> Mul(<<Size(r.d[c]), 0>>, x.un[c])]]
         ELSE By(r, x.to)
    [] e.sc = "flux_cal" -> ByAll(r, (IF o.pb THEN <<x.ipb>> ELSE << >>) \o (IF o.bm THEN <<x.ibm>> ELSE << >>) \o (IF o.fl THEN <<x.ifl>> ELSE << >>))
    [] e.sc = "mdlvis" -> IF r.i = r.j THEN r
         ELSE Blank([r EXCEPT !.d = [c \in Chans(r) |-> IF o.m = "sim" THEN x.sim[c] ELSE IF o.m = "sub" THEN Sub(r.d[c], x.sim[c]) ELSE Add(r.d[c], x.sim[c])],
                              !.f = IF o.m = "sim" /\ ~o.flag THEN [c \in Chans(r) |-> 0] ELSE r.f])

-----------------------------------------------------------------------------
Suffix(e) ==
  LET o == e.o IN
  CASE e.sc = "pull_pol" -> "P" [] e.sc = "pull_ants" -> "A" [] e.sc = "combine_freqs" -> "m" [] e.sc = "apply_bp" -> "b"
    [] e.sc = "uv_addsub" -> IF o.sub THEN "d" ELSE "a"
    [] e.sc = "xtalk3" -> "x" [] e.sc = "xrfi" -> "r" [] e.sc = "xrfi_simple" -> "R"
    [] e.sc = "apply_cal" -> "C" [] e.sc = "mdlvis" -> "s"
    [] e.sc = "phs2src" -> IF o.src = "" THEN "P" ELSE "." \o o.src
    [] e.sc = "flux_cal" -> "." \o (IF o.pb THEN "p" ELSE "") \o (IF o.bm THEN "b" ELSE "") \o (IF o.fl THEN "f" ELSE "")
    [] OTHER -> "?"
\* what is made of one data set
Made(W, e, name, tie) ==
  LET ds == W.dir[name]  o == e.o IN
  CASE e.sc = "pull_pol" -> Keep(ds, LAMBDA r : r.p \in ToSet(o.pols))
    [] e.sc = "pull_ants" -> Keep(ds, LAMBDA r : r.i \in ToSet(o.ants) /\ r.j \in ToSet(o.ants))
    [] e.sc = "combine_freqs" -> Combine(ds, o, tie)
    [] e.sc = "apply_bp" -> Recs(ds, LAMBDA r : [r EXCEPT !.d = [c \in Chans(r) |-> Times(r.d[c], o.s * (IF ds.bp = << >> THEN 1 ELSE ds.bp[r.i + 1][c] * ds.bp[r.j + 1][c]))]])
    [] e.sc = "uv_addsub" -> LET b == W.dir[e.files[2]] IN
         [ds EXCEPT !.recs = [k \in 1..Len(ds.recs) |-> LET r == ds.recs[k]  s == b.recs[k] IN
            Blank([r EXCEPT !.d = [c \in Chans(r) |-> IF o.sub THEN Sub(r.d[c], s.d[c]) ELSE Add(r.d[c], s.d[c])],
                            !.f = [c \in Chans(r) |-> IF r.f[c] = 1 \/ s.f[c] = 1 THEN 1 ELSE 0]])]]
    [] e.sc = "xtalk3" -> Less(ds, IF ~o.in THEN Talk(ds) ELSE IF Time(ds) \in DOMAIN W.rep THEN W.rep[Time(ds)] ELSE W.npz[Time(ds)])
    [] e.sc = "xrfi" -> Xrfi(ds, o)
    [] e.sc = "xrfi_simple" ->
         IF o.from # "" THEN Recs(ds, LAMBDA r : Flag(r, IF r.t \in DOMAIN W.msk[o.from] THEN W.msk[o.from][r.t] ELSE Ones(ds)))
         ELSE LET m == TLCEval(Simple(ds, o))  s == TLCEval(Shared(ds, m, o.thr))
              IN [ds EXCEPT !.recs = [k \in 1..Len(ds.recs) |-> Flag(ds.recs[k], IF ~o.comb THEN m[k] ELSE IF ds.recs[k].t \in DOMAIN s THEN s[ds.recs[k].t] ELSE Ones(ds))]]
    [] e.sc \in {"apply_cal", "phs2src", "flux_cal"} -> Recs(ds, LAMBDA r : Calibrated(e, r))
    [] e.sc = "mdlvis" -> Recs(Keep(ds, LAMBDA r : o.ant = "all" \/ (o.ant = "auto" /\ r.i = r.j) \/ (o.ant = "cross" /\ r.i # r.j)), LAMBDA r : Calibrated(e, r))

\* a data set without records cannot be read
Full(W, n) == n \in DOMAIN W.dir /\ W.dir[n].recs # << >>
Put(f, k, v) == (k :> v) @@ f
\* a script that stops leaves the rest undone: [W, err]
RECURSIVE Each(_, _, _, _, _)
Each(W, e, k, into, tie) ==
  IF k > Len(e.files) THEN [W |-> W, err |-> FALSE]
  ELSE LET name == e.files[k]  o == e.o  out == name \o Suffix(e) IN
  CASE e.sc = "combine_freqs" ->
         IF ~Full(W, name) THEN [W |-> W, err |-> TRUE]
         ELSE IF into # "" THEN Each([W EXCEPT !.dir[into].recs = @ \o Made(W, e, name, tie).recs], e, k + 1, into, tie)
         ELSE IF out \in DOMAIN W.dir THEN Each(W, e, k + 1, "", tie)
         ELSE Each([W EXCEPT !.dir = Put(@, out, Made(W, e, name, tie))], e, k + 1, IF o.unify THEN out ELSE "", tie)
    [] e.sc = "uv_addsub" ->
         IF \E n \in 1..2 : ~Full(W, e.files[n]) THEN [W |-> W, err |-> TRUE]
         ELSE [W |-> IF out \in DOMAIN W.dir THEN W ELSE [W EXCEPT !.dir = Put(@, out, Made(W, e, name, tie))], err |-> FALSE]
    [] e.sc = "xtalk3" /\ ~o.out ->
         IF out \in DOMAIN W.dir THEN Each(W, e, k + 1, "", tie)
         ELSE IF ~Full(W, name) THEN [W |-> W, err |-> TRUE]
         ELSE IF o.in /\ Time(W.dir[name]) \notin (DOMAIN W.rep \cup DOMAIN W.npz) THEN Each(W, e, k + 1, "", tie)
         ELSE Each([W EXCEPT !.dir = Put(@, out, Made(W, e, name, tie))], e, k + 1, "", tie)
    [] e.sc = "xtalk3" /\ o.out ->
         IF ~Full(W, name) THEN [W |-> W, err |-> TRUE]
         ELSE Each([W EXCEPT !.npz = Put(@, Time(W.dir[name]), Talk(W.dir[name]))], e, k + 1, "", tie)
    [] e.sc = "xrfi_simple" /\ o.to # "" ->
         IF out \in DOMAIN W.dir THEN Each(W, e, k + 1, "", tie)
         ELSE IF ~Full(W, name) THEN [W |-> W, err |-> TRUE]
         ELSE Each([W EXCEPT !.msk = Put(@, o.to, Shared(W.dir[name], Simple(W.dir[name], o), o.thr))], e, k + 1, "", tie)
    [] OTHER ->
         IF k = 1 /\ e.sc \in {"xrfi", "xrfi_simple", "apply_cal", "phs2src", "flux_cal", "mdlvis"} /\ ~Full(W, name) THEN [W |-> W, err |-> TRUE]
         ELSE IF out \in DOMAIN W.dir THEN Each(W, e, k + 1, "", tie)
         ELSE IF ~Full(W, name) THEN [W |-> W, err |-> TRUE]
         ELSE Each([W EXCEPT !.dir = Put(@, out, Made(W, e, name, tie))], e, k + 1, "", tie)
Rep(W, e) ==
  LET ts == [k \in 1..Len(e.files) |-> W.dir[e.files[k]].recs[1].t]
      r == Reprocess([k \in 1..Len(ts) |-> W.npz[ts[k]]], e.o.c0)
  IN [W |-> [W EXCEPT !.rep = [t \in ToSet(ts) |-> r[CHOOSE k \in 1..Len(ts) : ts[k] = t]] @@ @], err |-> FALSE]
\* a data set made from nothing but the array and the sources: every time, baseline and polarization
Pairs(n) == LET all == [k \in 1..n*n |-> <<(k - 1) \div n, (k - 1) % n>>] IN SelectSeq(all, LAMBDA x : x[1] <= x[2])
Simulated(e) ==
  LET o == e.o  ps == Pairs(o.nants)  np == Len(o.pols)  nb == Len(ps)
      rec(k) == LET t == o.ts[((k - 1) \div (nb * np)) + 1]
                    b == ps[(((k - 1) \div np) % nb) + 1]
                    p == o.pols[((k - 1) % np) + 1]
                    x == Row(e.tab, [t |-> t, p |-> p, i |-> b[1], j |-> b[2]])
                IN [t |-> t, i |-> b[1], j |-> b[2], p |-> p, u |-> x.u, g |-> 0, d |-> x.sim, f |-> [c \in 1..o.nchan |-> 0]]
  IN [recs |-> [k \in 1..(Len(o.ts) * nb * np) |-> rec(k)], nchan |-> o.nchan, nschan |-> o.nchan, sdf |-> o.sdf, sfreq |-> o.sfreq, hist |-> << >>, bp |-> << >>]
\* what uvlist says of the keys of files
Listing(W, e) ==
  LET one(f) == [k \in 1..Len(e.o.keys) |-> LET ds == W.dir[f]  key == e.o.keys[k] IN
                  IF key = "nchan" THEN ds.nchan ELSE IF key = "gain" THEN ds.recs[1].g ELSE IF key = "pol" THEN ds.recs[1].p ELSE 0]
  IN [k \in 1..Len(e.files) |-> one(e.files[k])]

W0 == [dir |-> << >>, npz |-> << >>, rep |-> << >>, msk |-> << >>]
Result(W, e, tie) ==
  IF e.op = "make" THEN [W |-> [W0 EXCEPT !.dir = e.dir], err |-> FALSE]
  ELSE IF e.sc = "uvlist" THEN [W |-> W, err |-> \E k \in 1..Len(e.files) : ~Full(W, e.files[k])]
  ELSE IF e.sc = "xtalk3" /\ e.o.rep THEN Rep(W, e)
  ELSE IF e.sc = "mdlvis_new" THEN IF "new.uv" \in DOMAIN W.dir THEN [W |-> W, err |-> TRUE]
                                   ELSE [W |-> [W EXCEPT !.dir = Put(@, "new.uv", Simulated(e))], err |-> FALSE]
  ELSE Each(W, e, 1, "", tie)

-----------------------------------------------------------------------------
(* What was seen: the directory as it is afterwards, e.o the end of the run.  *)
Scaled(sc) == sc \in {"apply_cal", "phs2src", "flux_cal", "mdlvis", "mdlvis_new"}
Near(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
SameRec(a, b) == a = b
\* calibrated data were calculated in units of 1/64 and are seen in them
CloseRec(a, b) == [a EXCEPT !.d = << >>] = [b EXCEPT !.d = << >>] /\ Len(a.d) = Len(b.d)
                  /\ \A c \in 1..Len(a.d) : Near(a.d[c], b.d[c], 14)
SameRecs(a, b, Same(_, _)) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k])
Talks(x) == { [t |-> t, v |-> { <<k, x[t][k]>> : k \in DOMAIN x[t] }] : t \in DOMAIN x }
SeenTalks(s) == { [t |-> s[n].t, v |-> { <<s[n].v[k].k, s[n].v[k].d>> : k \in 1..Len(s[n].v) }] : n \in 1..Len(s) }
Masks(x) == { [n |-> n, v |-> { <<t, x[n][t]>> : t \in DOMAIN x[n] }] : n \in DOMAIN x }
SeenMasks(s) == { [n |-> s[k].n, v |-> { <<s[k].v[i].t, s[k].v[i].f>> : i \in 1..Len(s[k].v) }] : k \in 1..Len(s) }
File(W, e, R, n) ==
  LET a == R.dir[n]  b == e.dir[n] IN
  IF "bad" \in DOMAIN b THEN "unreadable"
  ELSE IF a.recs = << >> THEN IF b = [recs |-> << >>] THEN "" ELSE "number of records"
  ELSE IF b.recs = << >> THEN "number of records"
  ELSE IF n \in DOMAIN W.dir THEN IF a = b THEN "" ELSE "an existing data set changed"
  ELSE IF a.nchan # b.nchan \/ a.nchan # b.nschan \/ a.sdf # b.sdf THEN "frequency axis"
  ELSE IF ~(IF e.sc # "combine_freqs" \/ a.nchan = W.dir[e.files[1]].nchan THEN a.sfreq = b.sfreq ELSE b.sfreq >= a.sfreq /\ b.sfreq <= a.sfreq + a.sdf) THEN "frequency axis"
  ELSE IF ~IsPrefix(a.hist, b.hist) \/ (Len(a.hist) = Len(b.hist) /\ e.sc # "phs2src") THEN "history"
  ELSE IF b.bp # (IF e.sc = "apply_bp" THEN << >> ELSE a.bp) THEN "bandpass"
  ELSE IF Len(a.recs) # Len(b.recs) THEN "number of records"
  ELSE IF ~SameRecs([k \in 1..Len(a.recs) |-> [a.recs[k] EXCEPT !.d = << >>, !.f = << >>]], [k \in 1..Len(b.recs) |-> [b.recs[k] EXCEPT !.d = << >>, !.f = << >>]], SameRec) THEN "what the records are of"
  ELSE IF \E k \in 1..Len(a.recs) : a.recs[k].f # b.recs[k].f THEN "flags"
  ELSE IF ~(IF Scaled(e.sc) THEN SameRecs(a.recs, b.recs, CloseRec) ELSE SameRecs(a.recs, b.recs, SameRec)) THEN "data" ELSE ""
Judge(W, e, r) ==
  LET R == r.W IN
  IF r.err # (e.rc # 0) THEN IF r.err THEN "is refused" ELSE "runs"
  ELSE IF DOMAIN e.dir # DOMAIN R.dir THEN "the data sets there are"
  ELSE LET bad == { n \in DOMAIN R.dir : File(W, e, R, n) # "" } IN
  IF bad # {} THEN File(W, e, R, CHOOSE n \in bad : TRUE)
  ELSE IF Talks(R.npz) # SeenTalks(e.npz) \/ Talks(R.rep) # SeenTalks(e.rep) THEN "crosstalk models"
  ELSE IF Masks(R.msk) # SeenMasks(e.msk) THEN "masks"
  ELSE IF e.sc = "uvlist" /\ ~r.err /\ e.said # Listing(W, e) THEN "listing" ELSE ""
Clause(W, e) ==
  IF e.op = "died" THEN "ends" ELSE IF e.op = "make" THEN ""
  ELSE LET c == Judge(W, e, Result(W, e, TRUE)) IN
       IF c = "" \/ e.sc # "combine_freqs" THEN c
       ELSE Judge(W, e, Result(W, e, FALSE))
\* go on from what was seen, which is as it has to be
Do(W, e) == LET R == Result(W, e, TRUE).W IN IF e.op = "make" THEN R ELSE [R EXCEPT !.dir = e.dir]
Due(W, e) == LET r == Result(W, e, TRUE) IN
  [err |-> r.err, dir |-> [n \in (DOMAIN r.W.dir \ DOMAIN W.dir) |-> r.W.dir[n]]]
Refused(W, e) == FALSE
=============================================================================
