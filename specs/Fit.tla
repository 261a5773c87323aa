-------------------------------- MODULE Fit ---------------------------------
(* fitmdl.py: parameters of sources and antennae fitted to data.             *)
(* A record of a data set is [t, i, j, p, f]: time, antennae, polarization   *)
(* and flags.  A parameter set is a sequence of [o, k, v]: object, name and  *)
(* value, in 10^-4.  Of each sample the power w is known, and for each set   *)
(* of parameters that occurs the power r of what the model leaves, both to   *)
(* the same scale.  Scores are in 10^-4.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

SeqSet(s) == {s[x] : x \in 1..Len(s)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x

(***************************************************************************)
(* Which samples count.                                                    *)
(***************************************************************************)
(* o = [ant, bls, autos, pols, ch, minuv, dec, ph, snap, remem, ...]        *)
Selected(o, r) ==
  /\ r.p \in SeqSet(o.pols)
  /\ CASE o.ant = "all" -> TRUE
       [] o.ant = "cross" -> r.i # r.j
       [] o.ant = "auto" -> r.i = r.j
       [] OTHER -> <<r.i, r.j>> \in SeqSet(o.bls)
(* The integration of a record: those before that have selected records.    *)
Integration(o, recs, k) == Cardinality({recs[x].t : x \in {y \in 1..Len(recs) : Selected(o, recs[y]) /\ recs[y].t < recs[k].t}})
Kept(o, recs, k) == Selected(o, recs[k]) /\ (Integration(o, recs, k) - o.ph) % o.dec = 0
Times(o, recs) == {recs[k].t : k \in {x \in 1..Len(recs) : Kept(o, recs, x)}}
(* lens: the length of each baseline, in the units of minuv *)
Counts(o, lens, r) == (r.i # r.j \/ o.autos) /\ lens[<<r.i, r.j>>] >= o.minuv
(* All records of a fit, of the files F and the times T *)
Records(o, S, F, T) ==
  UNION {{<<f, k>> : k \in {x \in 1..Len(S.dir[f]) : LET r == S.dir[f][x] IN (Kept(o, S.dir[f], x) /\ (r.t \in T /\ Counts(o, S.lens, r)))}} : f \in F}
Samples(o, S, F, T) ==
  UNION {{<<x[1], x[2], c>> : c \in {y \in SeqSet(o.ch) : S.dir[x[1]][x[2]].f[y] = 0}} : x \in Records(o, S, F, T)}
AllTimes(S) == UNION {{S.dir[f][k].t : k \in 1..Len(S.dir[f])} : f \in DOMAIN S.dir}
Sum(tab, X) == MapThenSumSet(LAMBDA x : tab[x[1]][x[2]][x[3]], X)

(***************************************************************************)
(* Parameters.                                                             *)
(***************************************************************************)
AsFun(p) == [x \in {<<p[y].o, p[y].k>> : y \in 1..Len(p)} |-> (LET q == CHOOSE y \in 1..Len(p) : <<p[y].o, p[y].k>> = x IN p[q].v)]
(* o.prms: [o, k, v], v = <<>> or the value to start from; o.shared: groups  *)
(* [objs, ks, v], of which the first object has the parameters.              *)
Given(o) == {<<x.o, x.k>> : x \in SeqSet(o.prms)} \cup UNION {{<<g.objs[1], k>> : k \in SeqSet(g.ks)} : g \in SeqSet(o.shared)}
Free(o, have) == Given(o) \cap DOMAIN have
(* have: what the calibration says *)
StartOf(o, have, x) ==
  LET P == {y \in SeqSet(o.prms) : <<y.o, y.k>> = x /\ y.v # <<>>}
      G == {g \in SeqSet(o.shared) : g.objs[1] = x[1] /\ x[2] \in SeqSet(g.ks) /\ g.v # <<>>}
  IN IF P # {} THEN (CHOOSE y \in P : TRUE).v[1]
     ELSE IF G # {} THEN (CHOOSE g \in G : TRUE).v[1]
     ELSE have[x]
Start(o, have) == [x \in Free(o, have) |-> StartOf(o, have, x)]
(* Every object of a group has the value of the first. *)
Expand(o, f) ==
  LET D == UNION {{<<b, k>> : b \in SeqSet(g.objs), k \in {y \in SeqSet(g.ks) : <<g.objs[1], y>> \in DOMAIN f}} : g \in SeqSet(o.shared)}
      Head1(x) == LET g == CHOOSE h \in SeqSet(o.shared) : x[1] \in SeqSet(h.objs) /\ x[2] \in SeqSet(h.ks) IN f[<<g.objs[1], x[2]>>]
  IN [x \in DOMAIN f \cup D |-> IF x \in D THEN Head1(x) ELSE f[x]]
(* Daemons share out, their master does not. *)
Shown(o, f) == IF o.master THEN f ELSE Expand(o, f)
Near(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : Abs(f[x] - g[x]) <= 1

(***************************************************************************)
(* Scores: the root of what is left over what there is.                    *)
(***************************************************************************)
(* (n samples, each of the powers rounded) *)
IsScore(s, R, P, n) == IF P = 0 THEN s = 0
                    ELSE LET q == (R * 10000) \div P  near == ((n * 5000) \div P) * (1 + (q + 9999) \div 10000)  z == IF s < 46000 THEN (s * s) \div 10000 ELSE ((s \div 10) * (s \div 10)) \div 100 IN s < 460000 /\ Abs(z - q) <= 5 + q \div 100 + near
(* s is pct, in 10^-4, of first *)
IsPart(pct, s, first) == IF first = 0 THEN pct = 0 ELSE Abs(((pct \div 100) * first) \div 100 - s) <= 3 + s \div 50 + first \div 100

Residuals(e, f) == {y \in SeqSet(e.tab) : Near(AsFun(y.p), f)}
Scored(e, f, s, X, P) == \E y \in Residuals(e, f) : IsScore(s, Sum(y.r, X), P, Cardinality(X))

(* One fit from the parameters f0, of the samples X.                         *)
(* fit = [time, evals, sum, res]; evals and res are [p, s, pct, first]       *)
OneClause(e, S, fit, f0, X, n) ==
  LET o == e.o
      P == Sum(e.w, X)
      evs == fit.evals
      E(x) == AsFun(evs[x].p)
      res == AsFun(fit.res.p)
      first == IF P = 0 THEN 0 ELSE fit.res.first
  IN IF DOMAIN res # DOMAIN f0 THEN "the parameters that are fitted"
     ELSE IF ~o.quiet /\ fit.sum # <<>> /\ (fit.sum[1] # n \/ fit.sum[2] # Cardinality(X)) THEN "the samples that count"
     ELSE IF P = 0 THEN IF fit.res.s # 0 THEN "no samples, no score" ELSE ""
     ELSE IF ~o.quiet /\ (evs = <<>> \/ ~Near(E(1), Shown(o, f0))) THEN "the parameters that a fit starts from"
     ELSE IF \E x \in 1..Len(evs) : DOMAIN E(x) # DOMAIN Shown(o, f0) \/ ~Near(E(x), Shown(o, [y \in DOMAIN f0 |-> E(x)[y]])) THEN "objects that share a parameter have one value"
     ELSE IF Len(evs) > o.maxiter THEN "the number of iterations"
     ELSE IF \E x \in 1..Len(evs) : ~Scored(e, Expand(o, E(x)), evs[x].s, X, P) THEN "the score of parameters"
     ELSE IF ~Scored(e, Expand(o, res), fit.res.s, X, P) THEN "the score of the result"
     ELSE IF ~Scored(e, Expand(o, f0), fit.res.first, X, P) THEN "the score at the start"
     ELSE IF \E x \in 1..Len(evs) : ~IsPart(evs[x].pct, evs[x].s, fit.res.first) \/ Abs(evs[x].first - fit.res.first) > 1 THEN "scores relative to the first"
     ELSE IF ~IsPart(fit.res.pct, fit.res.s, fit.res.first) THEN "scores relative to the first"
     ELSE IF fit.res.s > fit.res.first + 1 THEN "a result is no worse than the start"
     ELSE IF ~o.quiet /\ ~(\E x \in 1..Len(evs) : Abs(evs[x].s - fit.res.s) <= 1 /\ Near([y \in DOMAIN f0 |-> E(x)[y]], res)) THEN "the result is one that was tried"
     ELSE ""

(* The fits of a run: one, or in snapshot mode one per file and time.        *)
RECURSIVE Ascending(_)
Ascending(T) == IF T = {} THEN <<>> ELSE LET t == CHOOSE x \in T : \A y \in T : x <= y IN <<t>> \o Ascending(T \ {t})
RECURSIVE Snaps(_, _, _)
Snaps(o, S, files) == IF files = <<>> THEN <<>>
                      ELSE LET T == Ascending(Times(o, S.dir[Head(files)])) IN [x \in 1..Len(T) |-> [files |-> {Head(files)}, times |-> {T[x]}]] \o Snaps(o, S, Tail(files))
Fits(o, S, files) == IF o.snap THEN Snaps(o, S, files) ELSE <<[files |-> SeqSet(files), times |-> AllTimes(S)]>>

(* o.share: with daemons, the files of each; these share the work only.      *)
RECURSIVE Clauses(_, _, _, _, _)
Clauses(e, S, F, x, f0) ==
  IF x > Len(F) THEN ""
  ELSE LET fit == e.fits[x]
           X == Samples(e.o, S, F[x].files, F[x].times)
           n == Cardinality(Records(e.o, S, F[x].files, F[x].times)) * Len(e.o.ch)
           c == IF e.o.snap /\ {fit.time} # F[x].times THEN "each time is fitted by itself" ELSE OneClause(e, S, fit, f0, X, n)
       IN IF c # "" THEN c ELSE Clauses(e, S, F, x + 1, IF e.o.remem /\ e.o.snap THEN AsFun(fit.res.p) ELSE f0)
Missing(e, S) == \E x \in 1..Len(e.files) : e.files[x] \notin DOMAIN S.dir
FitClause(e, S) ==
  LET F == Fits(e.o, S, e.files) IN
  IF Len(e.fits) # Len(F) THEN "each time is fitted by itself"
  ELSE Clauses(e, S, F, 1, Start(e.o, S.have))

W0 == [mark |-> "", dir |-> << >>, have |-> << >>, lens |-> << >>]
Made(e) == [mark |-> e.mark, dir |-> e.dir, have |-> AsFun(e.have), lens |-> [x \in {<<e.lens[y].i, e.lens[y].j>> : y \in 1..Len(e.lens)} |->
                                                            (LET q == CHOOSE y \in 1..Len(e.lens) : <<e.lens[y].i, e.lens[y].j>> = x IN e.lens[q].l)]]
After(S, e) == IF e.op = "make" THEN Made(e) ELSE S
Clause(S, e) ==
  IF e.op = "make" THEN ""
  ELSE IF e.op # "fit" THEN "the script returns"
  ELSE IF e.mark # S.mark THEN "the data stay as they are"
  ELSE IF Missing(e, S) THEN IF e.rc = 0 THEN "a file that is missing is an error" ELSE ""
  ELSE IF e.rc # 0 THEN "the script runs"
  ELSE IF e.bad # "" THEN "what is printed can be read"
  ELSE FitClause(e, S)
=============================================================================
