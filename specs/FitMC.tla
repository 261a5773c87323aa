-------------------------------- MODULE FitMC --------------------------------
(* Laws of Fit.tla, and runs of fitmdl.py built step by step: what the model  *)
(* does is accepted, and the same run with one thing wrong is not.            *)
EXTENDS Fit
CONSTANTS Values, Iters, Decs, Snapping, Deep

Rec(t, i, j, p, f) == [t |-> t, i |-> i, j |-> j, p |-> p, f |-> f]
Dir == [a |-> <<Rec(1, 0, 0, -5, <<0, 0>>), Rec(1, 0, 1, -5, <<0, 1>>), Rec(1, 0, 1, -6, <<0, 0>>), Rec(2, 0, 1, -5, <<0, 0>>), Rec(3, 0, 0, -5, <<1, 1>>), Rec(4, 0, 1, -5, <<0, 0>>)>>,
        b |-> <<Rec(2, 1, 1, -5, <<0, 0>>), Rec(5, 0, 2, -5, <<0, 0>>), Rec(6, 0, 2, -6, <<0, 0>>)>>]
Lens == [x \in {<<0, 0>>, <<0, 1>>, <<1, 1>>, <<0, 2>>} |-> IF x = <<0, 1>> THEN 100 ELSE IF x = <<0, 2>> THEN 300 ELSE 0]
Have == [x \in {<<"s", "jys">>, <<"q", "jys">>, <<"s", "index">>} |-> IF x[2] = "jys" THEN 10000 ELSE 0 - 5000]
S0 == [mark |-> "m", dir |-> Dir, have |-> Have, lens |-> Lens]
(* Of each sample another power of two, so that sums tell which ones. *)
Place(f, k, c) == (IF f = "a" THEN 0 ELSE 12) + 2 * (k - 1) + (c - 1)
Pow(f, k, c) == 2 ^ (Place(f, k, c) % 7) * 100 + Place(f, k, c)
W == [f \in {"a", "b"} |-> [k \in 1..Len(Dir[f]) |-> [c \in 1..2 |-> Pow(f, k, c)]]]
(* What a model leaves: nothing where the flux is right, which differs.      *)
True0(f, k) == IF (k + (IF f = "a" THEN 0 ELSE 1)) % 2 = 0 THEN 10000 ELSE 20000
Left(v) == [f \in {"a", "b"} |-> [k \in 1..Len(Dir[f]) |-> [c \in 1..2 |-> (Pow(f, k, c) * (1000 + Abs(v - True0(f, k)))) \div 10000]]]
RECURSIVE Nth(_, _)
Nth(V, n) == LET v == CHOOSE x \in V : \A y \in V : x <= y IN IF n = 1 THEN v ELSE Nth(V \ {v}, n - 1)
SetToSeqV(n) == Nth(Values, n)
Tab(shared) == [n \in 1..Cardinality(Values) |-> LET v == SetToSeqV(n) IN [p |-> <<[o |-> "s", k |-> "jys", v |-> v]>> \o (IF shared THEN <<[o |-> "q", k |-> "jys", v |-> v]>> ELSE <<>>), r |-> Left(v)]]


RECURSIVE Root(_, _)
Root(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE Root(n, h)
Score(R, P) == LET q == (R * 10000) \div P IN IF q = 0 THEN 0 ELSE Root(q * 10000, q + 10000)

Options == {[ant |-> a, bls |-> <<<<0, 1>>>>, autos |-> au, pols |-> p, ch |-> c, minuv |-> m, dec |-> d, ph |-> d - 1, snap |-> sn, remem |-> re /\ sn, master |-> ma /\ ~sn, quiet |-> FALSE,
             maxiter |-> Iters, prms |-> IF sh THEN <<>> ELSE <<[o |-> "s", k |-> "jys", v |-> gv], [o |-> "s", k |-> "none", v |-> <<>>]>>,
             shared |-> IF sh THEN <<[objs |-> <<"s", "q">>, ks |-> <<"jys">>, v |-> gv]>> ELSE <<>>] :
             a \in {"all", "bls"}, au \in BOOLEAN, p \in {<<-5>>, <<-6, -5>>}, c \in {<<1, 2>>, <<2>>}, m \in {0, 200}, d \in Decs, sn \in Snapping, re \in BOOLEAN, ma \in BOOLEAN, sh \in BOOLEAN, gv \in {<<>>, <<20000>>}}
FilesOf == IF Deep THEN {<<"a">>, <<"b">>, <<"b", "a">>} ELSE {<<"b">>, <<"b", "a">>} \* {<<"a">>, <<"b", "a">>}

VARIABLES o, files, fits, cur, done
(* Which of them are run: all, or some of all kinds *)
Runs == Deep \/ ((o.minuv = 0) = o.autos /\ (o.ch = <<2>>) = (o.pols = <<-5>>) /\ (o.ant = "all" \/ o.dec = 1))
vars == <<o, files, fits, cur, done>>
F == Fits(o, S0, files)
X == Samples(o, S0, F[Len(fits) + 1].files, F[Len(fits) + 1].times)
Nrec == Cardinality(Records(o, S0, F[Len(fits) + 1].files, F[Len(fits) + 1].times)) * Len(o.ch)
P == Sum(W, X)
From == IF o.remem /\ fits # <<>> THEN AsFun(fits[Len(fits)].res.p) ELSE Start(o, Have)
Flat(f) == LET D == {<<"s", "jys">>, <<"q", "jys">>} \cap DOMAIN f IN [n \in 1..Cardinality(D) |-> LET x == IF n = 1 THEN <<"s", "jys">> ELSE <<"q", "jys">> IN [o |-> x[1], k |-> x[2], v |-> f[x]]]
At(v) == [x \in DOMAIN From |-> v]
ScoreOf(v) == Score(Sum(Left(v), X), P)
First == ScoreOf(From[<<"s", "jys">>])
Entry(p, s) == [p |-> Flat(p), s |-> s, pct |-> IF First = 0 THEN 0 ELSE (s * 10000) \div First, first |-> First]
Init == o \in Options /\ files \in FilesOf /\ fits = <<>> /\ cur = <<>> /\ done = FALSE
Evaluate(v) == /\ ~done /\ Runs /\ (o.snap => files # <<"b", "a">>) /\ Len(fits) < Len(F) /\ P > 0 /\ Len(cur) < Iters
               /\ cur = <<>> => v = From[<<"s", "jys">>]
               /\ cur' = Append(cur, v) /\ UNCHANGED <<o, files, fits, done>>
Best == CHOOSE x \in 1..Len(cur) : \A y \in 1..Len(cur) : ScoreOf(cur[x]) < ScoreOf(cur[y]) \/ (ScoreOf(cur[x]) = ScoreOf(cur[y]) /\ x <= y)
(* The daemons of the master have a file each and their sums are added. *)
Finish == /\ ~done /\ Runs /\ (o.snap => files # <<"b", "a">>) /\ Len(fits) < Len(F)
          /\ IF P = 0 THEN cur = <<>> /\ fits' = Append(fits, [time |-> CHOOSE t \in F[Len(fits) + 1].times : TRUE, evals |-> <<>>, sum |-> <<Nrec, 0>>, res |-> [p |-> Flat(From), s |-> 0, pct |-> 0, first |-> 0]])
             ELSE /\ cur # <<>>
                  /\ fits' = Append(fits, [time |-> CHOOSE t \in F[Len(fits) + 1].times : TRUE, evals |-> [x \in 1..Len(cur) |-> Entry(Shown(o, At(cur[x])), ScoreOf(cur[x]))],
                                           sum |-> <<Nrec, Cardinality(X)>>, res |-> Entry(At(cur[Best]), ScoreOf(cur[Best]))])
          /\ cur' = <<>> /\ UNCHANGED <<o, files, done>>
End == ~done /\ Len(fits) = Len(F) /\ done' = TRUE /\ UNCHANGED <<o, files, fits, cur>>
Next == (\E v \in Values : Evaluate(v)) \/ Finish \/ End
Spec == Init /\ [][Next]_vars

Event == [op |-> "fit", mark |-> "m", rc |-> 0, bad |-> "", o |-> o, files |-> files, fits |-> fits, w |-> W, tab |-> Tab(o.shared # <<>>)]
Accepted == done => Clause(S0, Event) = ""

(* One thing wrong. *)
Bad(e) == Clause(S0, e) # ""
With(x, f) == [Event EXCEPT !.fits[x] = f]
Live == {x \in 1..Len(fits) : fits[x].evals # <<>>}
Caught ==
  done =>
  /\ Len(fits) > 0 => Bad([Event EXCEPT !.fits = Tail(fits)]) /\ Bad([Event EXCEPT !.fits = <<fits[1]>> \o fits])
  /\ Bad([Event EXCEPT !.mark = "n"]) /\ Bad([Event EXCEPT !.rc = 1]) /\ Bad([Event EXCEPT !.files = <<"none">> \o files])
  /\ \A x \in Live :
       LET f == fits[x] IN
       /\ Bad(With(x, [f EXCEPT !.sum[2] = @ - 1])) /\ Bad(With(x, [f EXCEPT !.sum[1] = @ + Len(o.ch)]))
       /\ Bad(With(x, [f EXCEPT !.res.s = @ + @ \div 10])) /\ Bad(With(x, [f EXCEPT !.res.s = @ - @ \div 10])) /\ Bad(With(x, [f EXCEPT !.evals[1].s = @ + @ \div 10]))
       /\ Bad(With(x, [f EXCEPT !.res.pct = @ + @ \div 5])) /\ Bad(With(x, [f EXCEPT !.res.first = @ + @ \div 10]))
       /\ Bad(With(x, [f EXCEPT !.res.p = <<[@[1] EXCEPT !.v = 77]>>])) /\ Bad(With(x, [f EXCEPT !.evals[1].p[1].v = 77]))
       /\ (\E y \in 1..Len(f.evals) : f.evals[y].s > f.res.first + 1) =>
            LET y == CHOOSE z \in 1..Len(f.evals) : f.evals[z].s > f.res.first + 1 IN Bad(With(x, [f EXCEPT !.res = [f.evals[y] EXCEPT !.p = <<@[1]>>]]))
       /\ (o.shared # <<>> /\ ~o.master) => Bad(With(x, [f EXCEPT !.evals[1].p = <<@[1]>>])) /\ Bad(With(x, [f EXCEPT !.evals[1].p[2].v = @ + 100]))
       /\ o.snap => Bad(With(x, [f EXCEPT !.time = @ + 1]))
  (* whether parameters are remembered shows where a fit moved *)
  /\ (o.snap /\ \E x \in Live : x < Len(fits) /\ x + 1 \in Live /\ AsFun(fits[x].res.p) # Start(o, Have) /\ (o.remem \/ AsFun(fits[x].res.p) # AsFun(fits[1].res.p))) =>
       Bad([Event EXCEPT !.o.remem = ~@]) \/ \A x \in Live : x = 1 \/ [fits[x].evals[1] EXCEPT !.s = 0] = [fits[1].evals[1] EXCEPT !.s = 0]

(* Snapshots and decimations share the samples out. *)
Full == [o EXCEPT !.dec = 1, !.ph = 0]
SamplesOf(p, G) == UNION {Samples(p, S0, G[x].files, G[x].times) : x \in 1..Len(G)}
Shared(p, G) == \A x, y \in 1..Len(G) : x # y => Samples(p, S0, G[x].files, G[x].times) \cap Samples(p, S0, G[y].files, G[y].times) = {}
SetOf(p, sn) == SamplesOf([p EXCEPT !.snap = sn], Fits([p EXCEPT !.snap = sn], S0, files))
Partition == (fits = <<>> /\ cur = <<>>) =>
             /\ SetOf(o, TRUE) = SetOf(o, FALSE)
             /\ Shared(o, Fits([o EXCEPT !.snap = TRUE], S0, files))
             /\ LET Q(k) == SetOf([o EXCEPT !.dec = 3, !.ph = k], FALSE) IN Q(0) \cup Q(1) \cup Q(2) = SetOf(Full, FALSE) /\ Q(0) \cap Q(1) = {} /\ Q(1) \cap Q(2) = {} /\ Q(0) \cap Q(2) = {}
             /\ SetOf(o, FALSE) = UNION {SetOf([o EXCEPT !.pols = <<p>>], FALSE) : p \in SeqSet(o.pols)} \/ o.dec > 1
             /\ SetOf([o EXCEPT !.autos = FALSE], FALSE) \subseteq SetOf([o EXCEPT !.autos = TRUE], FALSE)
             /\ SetOf([o EXCEPT !.minuv = 200], FALSE) \subseteq SetOf([o EXCEPT !.minuv = 0], FALSE)
(* The sums of daemons are those of one process with all files. *)
Daemons == (fits = <<>> /\ cur = <<>> /\ files = <<"b", "a">>) => LET G == SetOf([o EXCEPT !.snap = FALSE], FALSE) IN
             \A v \in Values : Sum(Left(v), G) = Sum(Left(v), {x \in G : x[1] = "a"}) + Sum(Left(v), {x \in G : x[1] = "b"})
=============================================================================
