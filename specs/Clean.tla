-------------------------------- MODULE Clean --------------------------------
(***************************************************************************)
(* Deconvolution by CLEAN (aipy/deconv.py: clean, aipy/_deconv): an image is *)
(* explained by point sources, one component at a time.                      *)
(*                                                                          *)
(* Images are functions of 0..N-1, N = d1*d2, row by row (d2 = 1: one        *)
(* dimension), of Gaussian integers <<re, im>> in units of 2^-Bits.  The     *)
(* kernel has its peak 2u (u = 1, -1, i, -i, in units of 1/kd) at 0.  The    *)
(* machine is exact, and keeps every choice where two residuals are equal:   *)
(* Clean gives the set of possible outcomes.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<(a[1] * b[1]) - (a[2] * b[2]), (a[1] * b[2]) + (a[2] * b[1])>>
CHalf(a) == <<a[1] \div 2, a[2] \div 2>>
Conj(a) == <<a[1], -a[2]>>
CDiv(a, k) == <<a[1] \div k, a[2] \div k>>
Abs(x) == IF x < 0 THEN -x ELSE x
C0 == <<0, 0>>
Bound == 8388607            \* 2^23 - 1: beyond it the machine gives up

(* Sums of squares are beyond the integers of TLC: three digits in base 2^13. *)
RECURSIVE Digits(_, _, _, _, _)
Digits(f, k, H, M, L) ==
  IF k < 0 THEN LET m == M + (L \div 8192) IN <<H + (m \div 8192), m % 8192, L % 8192>>
  ELSE LET a == Abs(f[k][1])  b == Abs(f[k][2])
           ah == a \div 8192  al == a % 8192  bh == b \div 8192  bl == b % 8192
           m == M + (2 * ah * al) + (2 * bh * bl) + (L \div 8192)
       IN Digits(f, k - 1, H + (ah * ah) + (bh * bh) + (m \div 8192), m % 8192, (L % 8192) + (al * al) + (bl * bl))
Power(f, n) == Digits(f, n - 1, 0, 0, 0)
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
P0 == <<0, 0, 0>>
Mag(a) == Digits([k \in {0} |-> a], 0, 0, 0, 0)

-----------------------------------------------------------------------------
(* A job: d1, d2, ker (0..N-1), u, kd, gd (gain is 1/gd), area, pos, maxiter, *)
(* stop, tol ("none": never small enough, "any": always).                     *)
N(j) == j.d1 * j.d2
Shift(j, p, by) == ((((p \div j.d2) + (by \div j.d2)) % j.d1) * j.d2) + (((p % j.d2) + (by % j.d2)) % j.d2)
Back(j, p, by) == ((((p \div j.d2) - (by \div j.d2) + j.d1) % j.d1) * j.d2) + (((p % j.d2) - (by % j.d2) + j.d2) % j.d2)

Candidates(j, res) == { p \in 0..N(j)-1 : j.area[p + 1] # 0 /\ (j.pos => res[p][1] > 0) }
Peaks(j, res) == LET c == Candidates(j, res)
                     mag == [p \in c |-> Mag(res[p])]
                 IN { p \in c : \A q \in c : ~Less(mag[p], mag[q]) }
\* the residual times conj(u) / (2 gd): the step times 1 / kd
StepBy(j, r) == CDiv(CMul(r, Conj(j.u)), 2 * j.gd)
Exact(j, r) == LET s == CMul(r, Conj(j.u)) IN s[1] % (2 * j.gd) = 0 /\ s[2] % (2 * j.gd) = 0
NoPeak == -1                \* nothing to step to: an empty step
Less1(j, res, p) == IF p = NoPeak THEN res ELSE
                    LET s == StepBy(j, res[p])
                    IN [q \in 0..N(j)-1 |-> CSub(res[q], CMul(j.ker[Back(j, q, p) + 1], s))]
More1(j, mdl, res, p) == IF p = NoPeak THEN mdl ELSE [mdl EXCEPT ![p] = CAdd(mdl[p], CMul(<<j.kd, 0>>, StepBy(j, res[p])))]
Huge(f) == \E q \in DOMAIN f : Abs(f[q][1]) > Bound \/ Abs(f[q][2]) > Bound

(* States of the machine: mdl, res, score; best (or none); i, as in maxiter. *)
Start(j, im) == [mdl |-> [p \in 0..N(j)-1 |-> C0], res |-> im, score |-> Power(im, N(j)),
                 best |-> "none", bm |-> 0, br |-> 0, bs |-> P0, i |-> 1]
\* outcomes: [term, mdl, res, iter]; "free": not decided by the machine
Out(t, m, r, i) == [term |-> t, mdl |-> m, res |-> r, iter |-> i]
End(s) == IF s.best = "some" /\ s.bs # P0 /\ Less(s.bs, s.score) THEN Out("maxiter", s.bm, s.br, 0) ELSE Out("maxiter", s.mdl, s.res, 0)
After(j, s, p) ==   \* the state after a step at p
  LET res == Less1(j, s.res, p)
      mdl == More1(j, s.mdl, s.res, p)
      score == Power(res, N(j))
  IN IF s.score # P0 /\ Less(s.score, score)
     THEN IF j.stop THEN [done |-> TRUE, out |-> Out("divergence", s.mdl, s.res, s.i)]
          ELSE IF s.best = "none" \/ Less(s.score, s.bs)
          THEN [done |-> FALSE, st |-> [s EXCEPT !.mdl = mdl, !.res = res, !.score = score, !.best = "some",
                                               !.bm = s.mdl, !.br = s.res, !.bs = s.score, !.i = 1]]
          ELSE [done |-> FALSE, st |-> [s EXCEPT !.mdl = mdl, !.res = res, !.score = score, !.i = @ + 1]]
     ELSE IF s.score # P0 /\ (j.tol = "any" \/ (j.tol = "same" /\ s.score = score))
     THEN [done |-> TRUE, out |-> Out("tol", mdl, res, s.i)]
     ELSE IF ~j.stop /\ Less(score, s.score) /\ (s.best = "none" \/ Less(score, s.bs))
     THEN [done |-> FALSE, st |-> [s EXCEPT !.mdl = mdl, !.res = res, !.score = score, !.i = 1]]
     ELSE [done |-> FALSE, st |-> [s EXCEPT !.mdl = mdl, !.res = res, !.score = score, !.i = @ + 1]]
Free == [term |-> "free"]
Nexts(j, s) == IF Candidates(j, s.res) = {} THEN { After(j, s, NoPeak) } ELSE { After(j, s, p) : p \in Peaks(j, s.res) }
Undecided(j, s) == \/ Huge(s.res) \/ Huge(s.mdl)
                   \/ \E p \in Peaks(j, s.res) : ~Exact(j, s.res[p])
RECURSIVE Run(_, _, _, _)
Run(j, todo, outs, fuel) ==
  IF todo = {} THEN outs
  ELSE IF fuel = 0 \/ Cardinality(todo) > 30 THEN outs \cup {Free}
  ELSE LET over == { s \in todo : s.i >= j.maxiter }
           rest == todo \ over
           bad == { s \in rest : Undecided(j, s) }
           nx == UNION { Nexts(j, s) : s \in rest \ bad }
       IN Run(j, { x.st : x \in { y \in nx : ~y.done } },
              outs \cup { End(s) : s \in over } \cup (IF bad # {} THEN {Free} ELSE {}) \cup { x.out : x \in { y \in nx : y.done } }, fuel - 1)
Outcomes(j, im) == Run(j, {Start(j, im)}, {}, 60)

-----------------------------------------------------------------------------
(* Laws, for results in general. *)
RECURSIVE Conv(_, _, _, _)
Conv(j, mdl, q, p) == IF p < 0 THEN C0 ELSE CAdd(CMul(j.ker[Back(j, q, p) + 1], mdl[p]), Conv(j, mdl, q, p - 1))
\* the residual is the image without what the model explains (kernel in units of 1/kd)
Explained(j, im, mdl, res, slack) ==
  \A q \in 0..N(j)-1 : LET c == Conv(j, mdl, q, N(j) - 1)
                           d == CSub(CSub(im[q], CDiv(c, j.kd)), res[q])
                       IN Abs(d[1]) <= slack /\ Abs(d[2]) <= slack
Inside(j, mdl, mdl0) == \A p \in 0..N(j)-1 : j.area[p + 1] = 0 => mdl[p] = mdl0[p]
Positive(j, mdl, mdl0) == j.pos => \A p \in 0..N(j)-1 : mdl[p][1] >= mdl0[p][1]
\* no worse than where it started: the image without the start model
NoWorseFrom(j, im, m0, res) == LET r0 == [q \in 0..N(j)-1 |-> CSub(im[q], CDiv(Conv(j, m0, q, N(j) - 1), j.kd))]
                               IN ~Less(Power(r0, N(j)), Power(res, N(j)))
NoWorse(j, im, res) == ~Less(Power(im, N(j)), Power(res, N(j)))

-----------------------------------------------------------------------------
(* Events.  Numbers of the code times 2^bits; job, im, mdl0 in the same unit. *)
Fn(s) == [p \in 0..Len(s)-1 |-> s[p + 1]]
RECURSIVE Weight(_, _)
Weight(k, i) == IF i = 0 THEN 0 ELSE Abs(k[i][1]) + Abs(k[i][2]) + Weight(k, i - 1)
Slack(j) == 2 + Weight(j.ker, Len(j.ker))
\* beyond what the integers here can hold (a diverged model)
Wild(e) == \E k \in 1..Len(e.o.mdl) : \E c \in 1..2 : Abs(e.o.mdl[k][c]) > 131072 \/ Abs(e.o.res[k][c]) > 131072
Kept(e) == e.o.kept = TRUE
\* the info of CLEAN says how it ended
Info(e) == LET o == e.o IN
  CASE o.term = "maxiter" -> o.iter = e.job.maxiter /\ o.success = FALSE
    [] o.term = "tol" -> o.success = (o.iter > 0) /\ o.iter >= 0 /\ o.iter < e.job.maxiter
    [] o.term = "divergence" -> o.success = FALSE /\ o.iter > 0 /\ o.iter < e.job.maxiter /\ e.job.stop
    [] OTHER -> FALSE
Same(x, e) == /\ x.term = e.o.term
              /\ (e.job.stop \/ x.term = "maxiter" => e.o.iter = (IF x.term = "maxiter" THEN e.job.maxiter ELSE x.iter))
              /\ x.mdl = Fn(e.o.mdl) /\ x.res = Fn(e.o.res)
Refused(e) == e.op = "bad"
Clause(e) ==
  IF e.op = "died" THEN "ends"
  ELSE IF Refused(e) THEN IF "err" \in DOMAIN e.o THEN "" ELSE "refused"
  ELSE IF "err" \in DOMAIN e.o THEN "works"
  ELSE IF e.op = "recenter"
  THEN IF e.o.v = [k \in 1..(e.d1 * e.d2) |-> LET p == k - 1 IN
                     e.v[((((p \div e.d2) + e.c1) % e.d1) * e.d2) + (((p % e.d2) + e.c2) % e.d2) + 1]]
       THEN "" ELSE "recentred"
  ELSE LET j == e.job  n == N(j)  im == Fn(e.im)  m0 == Fn(e.mdl0)  mdl == Fn(e.o.mdl)  res == Fn(e.o.res)
       IN IF ~Kept(e) THEN "inputs"
          ELSE IF Len(e.o.mdl) # n \/ Len(e.o.res) # n THEN "shape"
          ELSE IF e.op = "clean"          \* exact
          THEN IF ~Info(e) THEN "info"
               ELSE LET os == Outcomes(j, im) IN
                    IF \E x \in os : x.term = "free" THEN "" 
                    ELSE IF \E x \in os : Same(x, e) THEN "" ELSE "outcome"
          ELSE IF Wild(e) THEN (IF e.op = "law" /\ ~Info(e) THEN "info" ELSE "")
          ELSE IF ~Explained(j, im, mdl, res, Slack(j)) THEN "explained"
          ELSE IF ~Inside(j, mdl, m0) THEN "area"
          ELSE IF e.op = "law"
          THEN IF ~Info(e) THEN "info"
               ELSE IF ~Positive(j, mdl, m0) THEN "positive"
               ELSE IF (j.stop \/ e.o.term = "maxiter") /\ ~NoWorseFrom(j, im, m0, Fn(e.o.trunc)) THEN "worse"
               ELSE ""
          ELSE \* fit: lsq, maxent, maxent_findvar, anneal
               IF \E p \in 0..n-1 : mdl[p][1] < e.low \/ mdl[p][1] > e.high THEN "bounds"
               ELSE IF e.o.iter < 1 \/ e.o.iter > j.maxiter THEN "info"
               ELSE IF e.how = "anneal" /\ ~NoWorseFrom(j, im, m0, Fn(e.o.trunc)) THEN "worse"
               ELSE ""
=============================================================================
